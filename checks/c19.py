"""C19: association, similarity and rank scores are exact. Matrices, vectors and L-R graphs are shared by a history of calls; the
oracle computes every score on its own from the numbers which were given."""
import math
import os

from sim import gen, sched
from sim.kernel import Inapplicable, Violation

from .c05 import steps_of, writes_of
from .c12 import close, patterns
from .c13 import cells_of, expect_contexts
from .trainables import Flaky, corpus_of, tokenizer_of

OPS = ['pmi'] * 4 + ['friendly'] * 2 + ['similar'] * 4 + ['contexts'] * 2 + ['train', 'hits', 'hits', 'hits', 'chain', 'threads', 'threads']
SLOTS = 4
LOG2 = math.log(2)


def gen_matrix(rng):
    """rows of counts"""
    if rng.random() < 0.15:
        # blocks of powers of two, whose probabilities and ratios are exact
        k, a, b, unit = rng.choice([1, 2, 4, 8]), rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([1, 2, 0.5])
        rows = [[unit if i // a == j // b else 0 for j in range(k * b)] for i in range(k * a)]
        rng.shuffle(rows)
        return rows
    n, m = rng.randint(1, 9), rng.randint(1, 9)
    x = rng.random()
    if x < 0.6:
        values = [0, 0, 0, 1, 1, 2, 3, 7]
    elif x < 0.8:
        values = [0, 0.5, 1 / 3, 2, 1]
    else:
        values = [0, 1]
    if rng.random() < 0.4:
        m = n
    rows = [[rng.choice(values) for _ in range(m)] for _ in range(n)]
    if rng.random() < 0.3:
        rows[rng.randrange(n)] = [0] * m
    if rng.random() < 0.3 and n > 1:
        rows[rng.randrange(n)] = list(rows[rng.randrange(n)])
    return rows


# what is left out has these values
DOCUMENTED = {'py': None, 'min_pmi': 0, 'alpha': 0.0, 'beta': 1, 'topk': 10, 'sum_of_rank': 10000, 'decaying_factor': 0.9, 'max_iter': 10,
              'tolerance': 0.0001, 'windows': 3, 'dynamic_weight': False}


def given_args(op, args):
    return {k: x for k, x in args.items() if not (op.get('omit') and k in DOCUMENTED and type(x) in (type(DOCUMENTED[k]), int, float) and DOCUMENTED[k] == x)}


def gen_call(rng, kind):
    op = {'op': kind, 'x': rng.randrange(SLOTS), 'omit': rng.random() < 0.3}
    if kind in ('pmi', 'friendly'):
        op.update(py=rng.choice([None, None, None, 0, 1, 2, 3]), min_pmi=rng.choice([0, 0, 0, 0.5, 1, -1, -10, LOG2, 2 * LOG2]),
                  alpha=rng.choice([0.0, 0.0, 0.0001, 0.1, 2]), beta=rng.choice([1, 1, 0.75, 0.5, 0.1]), verbose=rng.random() < 0.5,
                  form=rng.choice(['csr', 'csr', 'csc', 'coo']), spoil=rng.random() < 0.4)
    elif kind == 'similar':
        op.update(query=rng.randint(0, 40), topk=rng.choice([1, 2, 3, 10, 10, 0, -1]), form=rng.choice(['sparse', 'dense', 'dense', 'svd']),
                  known=rng.random() < 0.9, spoil=rng.random() < 0.4, mapper=rng.choice(['list', 'dict']))
    elif kind == 'hits':
        op.update(given=rng.random() < 0.4, total=rng.choice([10000, 1, 100]), df=rng.choice([0.9, 0.9, 0.5, 1.0, 0.85]), iters=rng.choice([1, 2, 10, 30]),
                  tolerance=rng.choice([0.0001, 0.0001, 0.01, 0, 0.5]), spoil=rng.random() < 0.4)
    return op


def gen_plan(rng, index, tier):
    v = gen.vocabulary(rng)
    corpora = []
    for _ in range(3):
        if rng.random() < 0.5:
            corpora.append(gen.corpus(rng, 1, 14, v))
        else:
            corpora.append([' '.join(gen.small_token(rng, '가나다', 1, 4) for _ in range(rng.randint(1, 7))) for _ in range(rng.randint(1, 12))])
    ops = []
    for _ in range(rng.randint(3, 12)):
        kind = rng.choice(OPS)
        op = gen_call(rng, kind)
        if kind in ('contexts', 'chain'):
            op.update(corpus=rng.randint(0, 2), windows=rng.choice([1, 2, 3, 5]), min_tf=rng.choice([1, 1, 2, 3]), dynamic=rng.random() < 0.5,
                      verbose=rng.random() < 0.5, tok=rng.choice(['words', 'chars', 'prefix', 'letters', 'ngrams']), form=rng.choice(['list', 'iter', 'file']))
        elif kind == 'train':
            op.update(corpus=rng.randint(0, 2))
        elif kind == 'threads':
            op.update(tasks=[[gen_call(rng, rng.choice(['pmi', 'pmi', 'friendly', 'similar', 'hits'])) for _ in range(rng.randint(1, 3))]
                             for _ in range(rng.randint(2, 3))],
                      switches=gen.gaps(rng, rng.choice([1, 2, 4, 10]), rng.choice([2, 5, 15])))
        if kind != 'threads' and rng.random() < 0.25:
            op['how'] = rng.choice(['line', 'line', 'stdout', 'tokenizer'])
            op['where'] = rng.random()
        ops.append(op)
    config = {'max_left_length': rng.choice([10, 3, 4]), 'max_right_length': rng.choice([6, 2, 3]), 'min_frequency': rng.choice([1, 1, 2, 3])}
    return {'corpora': corpora, 'matrices': [gen_matrix(rng) for _ in range(SLOTS)], 'config': config, 'verbose': rng.random() < 0.5, 'ops': ops}


# ------------------------------------------------------------------ model: rows are lists of numbers

def powers_of_two(*numbers):
    return all(math.frexp(v)[0] == 0.5 for v in numbers)


def reaches(ratio, least):
    """Is it exactly the least value, however it is computed"""
    return math.log(ratio) == least and math.exp(least) == ratio


def the_pmi(rows, py, min_pmi, alpha, beta):
    """-> (px, py, {cell: value} which must be there, cells at the border)"""
    total = math.fsum(math.fsum(r) for r in rows)
    px = [math.fsum(r) / total for r in rows]
    if py is None:
        py = [math.fsum(r[j] for r in rows) / total for j in range(len(rows[0]))]
    if beta < 1:
        py = [p ** beta for p in py]
        s = math.fsum(py)
        py = [p / s for p in py]
    want, border = {}, set()
    for i, r in enumerate(rows):
        for j, n in enumerate(r):
            if n and py[j]:
                value = math.log(n / total / px[i] / (py[j] + alpha))
                if beta == 1 and not alpha and powers_of_two(n, total, px[i], py[j]) and reaches(n / total / px[i] / py[j], min_pmi):
                    want[(i, j)] = value
                elif abs(value - min_pmi) < 1e-9:
                    border.add((i, j))
                elif value > min_pmi:
                    want[(i, j)] = value
    return px, py, want, border


def cosine(a, b):
    x, y = math.sqrt(math.fsum(v * v for v in a)), math.sqrt(math.fsum(v * v for v in b))
    return 0.0 if not x or not y else math.fsum(v * w for v, w in zip(a, b)) / x / y


def the_hits(lr, rl, total, df, iters, tolerance):
    """-> ({l: rank}, {r: rank}), or None when a change of a rank is at the border of the tolerance"""
    def normalize(g):
        s = math.fsum(g.values())
        return {w: df * total * v / s + (1 - df) * total / len(g) for w, v in g.items()}
    ls = {l: total / len(lr) for l in lr}
    rs = {r: total / len(rl) for r in rl if r}
    for _ in range(iters):
        ls_ = normalize({l: math.fsum(n * rs[r] for r, n in d.items() if r) for l, d in lr.items()})
        rs_ = normalize({r: math.fsum(n * ls[l] for l, n in d.items()) for r, d in rl.items() if r})
        diff = math.fsum(abs(v - ls_[w]) for w, v in ls.items()) + math.fsum(abs(v - rs_[w]) for w, v in rs.items())
        ls, rs = ls_, rs_
        if abs(diff - total * tolerance) < 1e-6 * total:
            return None
        if diff < total * tolerance:
            break
    return ls, rs


# ------------------------------------------------------------------ run

def execute(plan, ctx):
    import numpy as np
    from scipy.sparse import coo_matrix, csc_matrix, csr_matrix
    from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
    from soynlp.utils import most_similar, svd
    from soynlp.vectorizer import sent_to_word_contexts_matrix
    from soynlp.word import pmi
    from soynlp.word._pmi import pmi_memory_friendly
    if len(plan['corpora']) < 3 or any(not c or not all(s.strip() for s in c) for c in plan['corpora']) or len(plan['matrices']) < SLOTS \
            or any(not m or not m[0] or any(len(r) != len(m[0]) for r in m) for m in plan['matrices']):
        raise Inapplicable()
    for package in ('utils', 'word', 'vectorizer', 'tokenizer'):
        exec('from soynlp.{} import *'.format(package), {})
    os.makedirs('d')
    root = os.path.abspath('d')
    forms = {'csr': csr_matrix, 'csc': csc_matrix, 'coo': coo_matrix}
    rows = [[list(map(float, r)) for r in m] for m in plan['matrices']]
    xs = [{f: c(np.array(m)) for f, c in forms.items()} for m in rows]
    names = [['w{}'.format(i) for i in range(len(m))] for m in rows]
    dense = [np.array(m) for m in rows]
    trainer = EojeolPatternTrainer(verbose=plan['verbose'], **plan['config'])
    graph = [None]

    def set_matrix(k, x, terms):
        rows[k] = x.toarray().tolist()
        xs[k] = {f: c(x) for f, c in forms.items()}
        names[k] = list(terms)
        dense[k] = np.array(rows[k])

    def legal(op):
        m = rows[op['x']] if 'x' in op else None
        if op['op'] in ('pmi', 'friendly'):
            return sum(map(sum, m)) > 0 and (op['py'] is None or len(rows[op['py']][0]) == len(m[0]) and sum(map(sum, rows[op['py']])) > 0)
        if op['op'] == 'similar':
            return len(m) > 0 and (op['form'] != 'svd' or (len(m) > 2 and len(m[0]) > 2))
        if op['op'] == 'hits':
            return graph[0] is not None and any(r for d in graph[0].values() for r in d)
        return True

    def py_of(op):
        if op['py'] is None:
            return None
        total = sum(map(sum, rows[op['py']]))
        return [sum(r[j] for r in rows[op['py']]) / total for j in range(len(rows[op['py']][0]))]

    def vectors(op):
        """as they are given, as rows of numbers"""
        k = op['x']
        if op['form'] == 'sparse':
            return xs[k]['csr'], rows[k]
        if op['form'] == 'dense':
            return dense[k], rows[k]
        u = svd(xs[k]['csr'], 2, random_state=0)[0].round(6)      # directions of noise mean nothing
        return u, u.tolist()

    def prepare(op):
        """Arguments of a call, the call, and what checks the answer"""
        if op['op'] in ('pmi', 'friendly'):
            py = py_of(op)
            given = None if py is None else np.array([py])
            f = pmi if op['op'] == 'pmi' else pmi_memory_friendly
            kw = {} if op['op'] == 'pmi' else {'verbose': op['verbose']}

            def call():
                return f(xs[op['x']][op['form']], **given_args(op, dict(kw, py=given, min_pmi=op['min_pmi'], alpha=op['alpha'], beta=op['beta'])))

            def check(out, when):
                expect_pmi(ctx, out, rows[op['x']], the_pmi(rows[op['x']], py, op['min_pmi'], op['alpha'], op['beta']), op['op'], when)
                if given is not None and given.tolist() != [py]:
                    raise Violation('input', 'computing PMI changes the given probabilities ({})'.format(when))
                if op['spoil']:
                    out[0].data[:] = -1 if hasattr(out[0], 'indptr') else 0
                    out[1][:] = 7
                    if given is None:
                        out[2][:] = 7
            if op['op'] == 'friendly':
                inner = check

                def check(out, when):
                    return inner((out[0].tocsr(), out[1], out[2]), when)
        elif op['op'] == 'similar':
            k = op['x']
            vs, numbers = vectors(op)
            items = list(names[k])
            index = {w: i for i, w in enumerate(items)}
            to_item = items if op['mapper'] == 'list' else dict(enumerate(items))
            q = op['query'] % len(items)

            def call():
                return most_similar(items[q] if op['known'] else '없는말', vs, index, to_item, **given_args(op, {'topk': op['topk']}))

            def check(out, when):
                expect_similar(ctx, out, q if op['known'] else None, items, numbers, op['topk'], when)
                if index != {w: i for i, w in enumerate(items)} or items != names[k]:
                    raise Violation('input', 'a search for similar items changes its mappers ({})'.format(when))
                if op['spoil']:
                    del out[:]
        else:
            lr = {l: dict(d) for l, d in graph[0].items()}
            rl = {}
            for l, d in lr.items():
                for r, n in d.items():
                    rl.setdefault(r, {})[l] = n
            kw = dict(sum_of_rank=op['total'], decaying_factor=op['df'], max_iter=op['iters'], tolerance=op['tolerance'])
            kw = given_args(op, kw)
            if op['given']:
                kw.update(lrgraph={l: dict(d) for l, d in lr.items()}, rlgraph={r: dict(d) for r, d in rl.items()})

            def call():
                return trainer.train_hits(**kw)

            def check(out, when):
                expect_hits(ctx, out, the_hits(lr, rl, op['total'], op['df'], op['iters'], op['tolerance']), op['total'], when)
                if op['given'] and (kw['lrgraph'] != lr or kw['rlgraph'] != rl):
                    raise Violation('input', 'ranking changes the given graph ({})'.format(when))
                if op['spoil']:
                    for d in out:
                        d.clear()
        return call, check

    def unchanged(when):
        for k in range(SLOTS):
            if any(x.toarray().tolist() != rows[k] for x in xs[k].values()) or dense[k].tolist() != rows[k]:
                raise Violation('input', 'a matrix of the caller is changed ({})'.format(when))
        if graph[0] is not None and trainer.lrgraph != graph[0]:
            raise Violation('input', 'the L-R graph of a trainer is changed ({})'.format(when))

    last = None
    for n, op in enumerate(plan['ops']):
        when = op['op']
        if when == 'threads':
            tasks = [[prepare(c) + (c,) for c in t if legal(c)] for t in op['tasks']]
            results = [[] for _ in tasks]

            def body(k):
                def fn():
                    for call, check, c in tasks[k]:
                        results[k].append(call())
                return fn
            s = sched.Scheduler([body(k) for k in range(len(tasks))], op['switches'])
            out = s.run()
            ctx.fault('thread-switch', len(s.trace))
            for k, (status, value) in enumerate(out):
                if status == 'raised':
                    raise Violation('thread', 'a computation fails beside others: {}: {}'.format(type(value).__name__, value))
                for (call, check, c), r in zip(tasks[k], results[k]):
                    check(r, 'beside other threads')
        elif when == 'train':
            docs = plan['corpora'][op['corpus']]
            counts = patterns(docs, plan['config'], None)
            done = undisturbed(ctx, op, lambda: trainer.train(list(docs)), None)
            new = {}
            for (l, r), f in counts.items():
                new.setdefault(l, {})[r] = f
            if done is not None or trainer.lrgraph == new:
                graph[0] = new
        elif when in ('contexts', 'chain'):
            docs = plan['corpora'][op['corpus']]
            tok = tokenizer_of(op['tok'])
            words = sum(len(tok(d)) for d in docs)
            flaky = Flaky(tok)
            path = os.path.join(root, 'corpus{}'.format(n))

            def call():
                return sent_to_word_contexts_matrix(corpus_of(op['form'], docs, path), tokenizer=flaky, min_tf=op['min_tf'], **given_args(
                    op, {'windows': op['windows'], 'dynamic_weight': op['dynamic'], 'verbose': op['verbose']}))
            out = undisturbed(ctx, op, call, flaky, len(docs)) if words else None
            if out is not None:
                x, terms = out
                expect_contexts(ctx, op, x, terms, docs, tok)
                if len(terms):
                    set_matrix(op['x'], x.astype(float), terms)
                    if when == 'chain' and sum(map(sum, rows[op['x']])) > 0:
                        p, px, py = pmi(xs[op['x']]['csr'], min_pmi=0)
                        expect_pmi(ctx, (p, px, py), rows[op['x']], the_pmi(rows[op['x']], None, 0, 0.0, 1), 'pmi', when)
                        numbers = p.toarray().tolist()
                        index = {w: i for i, w in enumerate(terms)}
                        for q in range(0, len(terms), 3):
                            expect_similar(ctx, most_similar(terms[q], p, index, terms, topk=5), q, terms, numbers, 5, when)
        elif legal(op):
            call, check = prepare(op)
            out = undisturbed(ctx, op, call, None)
            if out is not None:
                check(out, when)
        unchanged(when)
        ctx.state((when, op.get('how'), op.get('form'), op.get('py') is None, last))
        last = when
        ctx.log(n, when, [len(m) for m in rows], sorted(graph[0] or {})[:10])
    ctx.interesting({'operations': [o['op'] for o in plan['ops']]})


def undisturbed(ctx, op, call, flaky, items=1):
    """What the call returns, or None when it was disturbed"""
    how = op.get('how')
    if how == 'line':
        total = steps_of(ctx, call)
        s = sched.Steps(interrupt_at=1 + int(op['where'] * total), exc=KeyboardInterrupt)
        try:
            with s:
                return call()
        except KeyboardInterrupt:
            if s.where is None:
                raise
            ctx.fault('interrupted-line')
            return None
    if how == 'stdout':
        writes = writes_of(ctx, call)
        if writes:
            ctx.sink.fail_at = ctx.sink.writes + 1 + int(op['where'] * writes)
            try:
                call()
            except BrokenPipeError:
                ctx.fault('stdout')
                return None
            finally:
                ctx.sink.fail_at = None
            raise Violation('swallowed', 'a failing output is ignored')
    if how == 'tokenizer' and flaky is not None:
        flaky.fuse, flaky.exc = int(op['where'] * 2 * items), RuntimeError('injected')
        exc = flaky.exc
        try:
            call()
        except RuntimeError as e:
            if e is not exc:
                raise
            ctx.fault('callback')
            return None
        raise Violation('swallowed', 'a failing tokenizer is ignored')
    return call()


def expect_pmi(ctx, out, rows, truth, name, when):
    ctx.count('evaluations')
    x, px, py = out
    px_, py_, want, border = truth
    for what, got, p in (('rows', px, px_), ('columns', py, py_)):
        got = [float(v) for v in got.reshape(-1).tolist()] if got.ndim == 1 else [float(v) for v in got.tolist()[0]]
        if len(got) != len(p) or not all(close(a, b) for a, b in zip(got, p)):
            raise Violation('marginals', 'probabilities of {} are wrong ({}, {})'.format(what, name, when), got=got, expected=p)
    if tuple(x.shape) != (len(rows), len(rows[0])):
        raise Violation('pmi', 'a PMI matrix has another shape ({}, {})'.format(name, when))
    got = {(int(i), int(j)): float(v) for i, j, v in cells_of(x)}
    got = {c: v for c, v in got.items() if c not in border}
    wrong = sorted(c for c in set(got) | set(want) if c not in got or c not in want or not close(got[c], want[c]))
    wrong = [c for c in wrong if abs(got.get(c, 0.0)) > 1e-9 or abs(want.get(c, 0.0)) > 1e-9]
    if wrong:
        raise Violation('pmi', 'PMI of a pair is wrong ({}, {})'.format(name, when), cell=wrong[0], got=got.get(wrong[0]), expected=want.get(wrong[0]))


def expect_similar(ctx, out, q, items, rows, topk, when):
    ctx.count('evaluations')
    if q is None:
        if list(out) != []:
            raise Violation('similar', 'an unknown item has similar items ({})'.format(when))
        return
    want = {w: cosine(rows[q], rows[i]) for i, w in enumerate(items) if i != q}
    got = [w for w, _ in out]
    k = len(want) if topk <= 0 else min(topk, len(want))
    if len(got) != k or len(set(got)) != k or not set(got) <= set(want):
        raise Violation('similar', 'a search returns other than the asked number of other items ({})'.format(when), asked=topk, others=len(want), got=len(got))
    for w, s in out:
        if abs(float(s) - want[w]) > 1e-6:
            raise Violation('similar', 'the similarity of an item is wrong ({})'.format(when), item=w, got=float(s), expected=want[w])
    best = sorted(want.values(), reverse=True)[:k]
    if any(abs(float(s) - b) > 1e-6 for (_, s), b in zip(out, best)):
        raise Violation('similar', 'items are not the most similar ones in order ({})'.format(when), got=[float(s) for _, s in out], expected=best)


def expect_hits(ctx, out, truth, total, when):
    ctx.count('evaluations')
    if truth is None:
        return
    for side, got, want in zip('LR', out, truth):
        if set(got) != set(want):
            raise Violation('hits', 'ranks are not those of the parts of the graph ({})'.format(when), side=side)
        w = [w for w in sorted(want) if abs(got[w] - want[w]) > 1e-6 * total]
        if w:
            raise Violation('hits', 'the rank of a part is wrong ({})'.format(when), side=side, part=w[0], got=got[w[0]], expected=want[w[0]])
