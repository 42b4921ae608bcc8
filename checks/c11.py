"""C11: eojeol counters and L-R graphs count exactly, through every history of counting, removing, adding, resetting,
converting, saving and loading, with failures in between. The oracle is a model of multisets."""
import os

from sim import gen, simio
from sim.kernel import Inapplicable, Violation

from .trainables import FaultyCorpus, corpus_of

PREPROCESS = {None: None, 'lower': lambda s: s.lower(), 'cut': lambda s: s.replace('는', ' ').replace('ㅋ', '')}


# ------------------------------------------------------------------ model

class Counter:
    def __init__(self, counts):
        self.counts = {k: v for k, v in counts.items()}
        self.total = sum(counts.values())
        self.coverage = 0.0

    def remove(self, words):
        self.counts = {k: v for k, v in self.counts.items() if k not in words}
        self.coverage = 1 - sum(self.counts.values()) / self.total


def count(sents, min_count, max_length, checkpoint, preprocess):
    """Eojeol by eojeol: what it has at a checkpoint is kept when it is enough"""
    segments = []
    for i, s in enumerate(sents):
        if i == 0 or (checkpoint > 0 and min_count > 1 and i % checkpoint == 0):
            segments.append({})
        for w in (preprocess(s) if preprocess else s).split():
            if len(w) <= max_length:
                segments[-1][w] = segments[-1].get(w, 0) + 1
    out = {}
    for w in {w for seg in segments for w in seg}:
        n = 0
        for seg in segments:
            n += seg.get(w, 0)
            if n < min_count:
                n = 0
        if n:
            out[w] = n
    return out


def pairs(counts, l_max, r_max, ignore=False):
    out = {}
    for w, c in counts.items():
        if ignore and len(w) == 1:
            continue
        for e in range(1, min(len(w), l_max) + 1):
            if len(w) - e <= r_max:
                out[(w[:e], w[e:])] = out.get((w[:e], w[e:]), 0) + c
    return out


class Graph:
    def __init__(self, edges):
        self.edges = dict(edges)
        self.origin = dict(edges)

    def add(self, l, r, n):
        self.edges[(l, r)] = self.edges.get((l, r), 0) + n

    def remove(self, l, r, n):
        if (l, r) in self.edges:
            self.edges[(l, r)] -= n
            if self.edges[(l, r)] <= 0:
                del self.edges[(l, r)]

    def add_eojeol(self, w, n):
        for e in range(1, len(w) + 1):
            self.add(w[:e], w[e:], n)

    def remove_eojeol(self, w, n):
        for e in range(1, len(w) + 1):
            self.remove(w[:e], w[e:], n)


# ------------------------------------------------------------------ plan

OPS = ['count', 'count_bad', 'remove_covered', 'coverage', 'save', 'save_bad', 'load', 'load_bad', 'to_lrgraph', 'graph', 'graph_dict',
       'edit', 'reset', 'g_save', 'g_save_bad', 'g_load', 'g_load_bad', 'to_counter', 'copy', 'nouns', 'feed']
WEIGHTS = [4, 2, 3, 1, 2, 2, 2, 1, 5, 2, 2, 9, 3, 2, 1, 2, 1, 3, 2, 2, 2]


def gen_plan(rng, index, tier):
    v = gen.vocabulary(rng)
    corpora = []
    for _ in range(3):
        if rng.random() < 0.5:
            corpora.append(gen.corpus(rng, 1, 14, v))
        else:
            alphabet = rng.choice(['가나', '가나다', '가나ab1ㅋ', 'aAbB'])
            corpora.append([' '.join(gen.small_token(rng, alphabet, 1, rng.choice([2, 4, 20])) for _ in range(rng.randint(1, 7)))
                            for _ in range(rng.randint(1, 20))])
    ops = []
    for _ in range(rng.randint(3, 16)):
        what = rng.choices(OPS, WEIGHTS)[0]
        op = {'op': what, 'c': rng.randint(0, 1), 'g': rng.randint(0, 1), 'to': rng.randint(0, 1), 'where': rng.random(), 'slot': rng.randint(0, 1)}
        if what in ('count', 'count_bad'):
            op.update(corpus=rng.randint(0, 2), form=rng.choice(['list', 'file', 'iter']), min_count=rng.choice([1, 1, 2, 3]),
                      max_length=rng.choice([15, 15, 1, 3]), checkpoint=rng.choice([0, 1, 2, 5]), verbose=rng.random() < 0.5,
                      pre=rng.choice([None, None, 'lower', 'cut']), rchunk=rng.choice([0, 3, 50]))
        elif what in ('to_lrgraph', 'graph'):
            op.update(corpus=rng.randint(0, 2), l=rng.choice([2, 3, 10]), r=rng.choice([1, 2, 9]), ignore=rng.random() < 0.3)
        elif what == 'edit':
            op['edits'] = [[rng.choice(['remove_eojeol', 'remove_eojeol', 'remove_lr_pair', 'add_lr_pair', 'add_eojeol']), rng.random(), rng.random(),
                            rng.choice([1, 1, 2, 3, 100])] for _ in range(rng.randint(1, 6))]
        elif what.endswith('_bad'):
            op.update(io=rng.choice(['write', 'openw', 'fsync', 'rename'] if 'save' in what else ['read', 'openr']),
                      errno=rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EMFILE']), nth=rng.choice([0, 0, 1]))
        elif what == 'nouns':
            op.update(score=rng.choice([0.1, 0.3]), reset=rng.random() < 0.5, feature=rng.choice([0, 1]), fail=rng.random() < 0.3)
        ops.append(op)
    return gen.make_large({'corpora': corpora, 'ops': ops}, index, 80, (1000, 2300), 4)


# ------------------------------------------------------------------ run

def eojeols(plan):
    out = set()
    for c in plan['corpora']:
        for s in c:
            for p in PREPROCESS.values():
                out.update((p(s) if p else s).split())
    return sorted(out)


def expect_counter(ctx, c, m, words, when):
    ctx.count('evaluations')
    got = dict(c.items())
    if got != m.counts:
        wrong = sorted(w for w in set(got) | set(m.counts) if got.get(w) != m.counts.get(w))
        raise Violation('count', 'an eojeol counter counts wrongly ({})'.format(when), eojeol=wrong[0], counted=got.get(wrong[0]),
                        is_=m.counts.get(wrong[0]))
    n = sum(m.counts.values())
    ok = (len(c) == len(got) == c.num_of_unique_uncovered_eojeols and c.num_of_uncovered_eojeols == n
          and abs(c.coverage - m.coverage) < 1e-9 and all(c[w] == m.counts.get(w, 0) == c.get_eojeol_count(w) for w in words[:40])
          and c.get_uncovered_eojeols(2) == {w: k for w, k in m.counts.items() if k >= 2})
    if not ok:
        raise Violation('count-queries', 'queries of an eojeol counter do not agree with its counts ({})'.format(when),
                        coverage=[c.coverage, m.coverage], total=[c.num_of_uncovered_eojeols, n])


def edges_of(g, ls, rs):
    out, back = {}, {}
    for l in ls:
        for r, n in g.get_r(l, -1):
            if (l, r) in out:
                raise Violation('edge-twice', 'an L-R graph holds a pair twice', pair=[l, r])
            out[(l, r)] = n
    for r in rs:
        for l, n in g.get_l(r, -1):
            back[(l, r)] = n
    return out, back


def expect_graph(ctx, g, m, ls, rs, when, at_most=False):
    ctx.count('evaluations')
    got, back = edges_of(g, ls, rs)
    if back != {k: n for k, n in got.items() if k[1]}:
        wrong = sorted(k for k in set(got) | set(back) if k[1] and got.get(k) != back.get(k))
        raise Violation('transpose', 'L to R and R to L of a graph disagree ({})'.format(when), pair=wrong[0], l_to_r=got.get(wrong[0]), r_to_l=back.get(wrong[0]))
    if any(n <= 0 for n in got.values()):
        raise Violation('not-positive', 'an L-R graph holds a count which is not positive ({})'.format(when))
    if at_most:
        wrong = sorted(k for k in got if got[k] > m.edges.get(k, 0))
        if wrong:
            raise Violation('edge', 'an extraction adds to the L-R graph ({})'.format(when), pair=wrong[0])
        m.edges = got
    elif got != m.edges:
        wrong = sorted(k for k in set(got) | set(m.edges) if got.get(k) != m.edges.get(k))
        raise Violation('edge', 'an L-R graph counts wrongly ({})'.format(when), pair=wrong[0], counted=got.get(wrong[0]), is_=m.edges.get(wrong[0]))
    by_l = {}
    for (l, r), n in got.items():
        by_l.setdefault(l, []).append(n)
    for l, ns in list(by_l.items())[:6]:
        top = [n for _, n in g.get_r(l, 2)]
        if top != sorted(ns, reverse=True)[:2]:
            raise Violation('top', 'get_r does not give the most frequent R', l=l)
    c = g.to_EojeolCounter()
    want = {}
    for (l, r), n in got.items():
        want.setdefault(l + r, set()).add(n)
    have = dict(c.items())
    if set(have) != set(want) or any(n not in want[w] for w, n in have.items()):
        raise Violation('to-counter', 'the eojeols of an L-R graph are not those of its pairs ({})'.format(when))


def execute(plan, ctx):
    plan = gen.unfold(plan)
    from soynlp.utils import EojeolCounter, LRGraph
    if any(not c for c in plan['corpora']) or len(plan['corpora']) < 3:
        raise Inapplicable()
    words = eojeols(plan)
    if not words:
        raise Inapplicable()
    ls = sorted({w[:i] for w in words for i in range(1, len(w) + 1)})
    rs = sorted({w[i:] for w in words for i in range(1, len(w))})
    os.makedirs('d')
    root = os.path.abspath('d')
    cs, mcs = [EojeolCounter(), EojeolCounter()], [Counter({}), Counter({})]
    gs, mgs = [LRGraph(), LRGraph()], [Graph({}), Graph({})]
    saved, gsaved = {}, {}
    last = None

    def failing(op, fn):
        faults = [{'ops': [op['io']], 'nth': op['nth'], 'action': 'errno', 'arg': op['errno']}]
        simio.arm([root], faults)
        try:
            fn()
        except OSError:
            if not simio.fired(1)[0]:
                raise
            ctx.fault('{}-{}'.format(op['io'], op['errno']))
            return True
        finally:
            fired = simio.fired(1)[0]
            simio.disarm()
        if fired:
            raise Violation('swallowed', '{} swallows an error'.format(op['op']), fault=faults[0])
        return False

    for n, op in enumerate(plan['ops']):
        what = op['op']
        c, mc, g, mg = cs[op['c']], mcs[op['c']], gs[op['g']], mgs[op['g']]
        path, gpath = os.path.join(root, 'c{}'.format(op['slot'])), os.path.join(root, 'g{}'.format(op['slot']))
        if what in ('count', 'count_bad'):
            sents = plan['corpora'][op['corpus']]
            pre = PREPROCESS[op['pre']]
            if not all(s.strip() for s in sents):
                raise Inapplicable()
            kw = dict(min_count=op['min_count'], max_length=op['max_length'], filtering_checkpoint=op['checkpoint'], verbose=op['verbose'], preprocess=pre)
            if what == 'count_bad':
                corpus = FaultyCorpus(sents)
                corpus.fault = (0, int(op['where'] * len(sents)), OSError('injected'))
                try:
                    EojeolCounter(corpus, **kw)
                except OSError:
                    ctx.fault('corpus-fails')
                else:
                    raise Violation('swallowed', 'counting goes on over a failing corpus')
            else:
                corpus = corpus_of(op['form'], sents, os.path.join(root, 'corpus{}'.format(n)))
                simio.arm([root], rchunk=op['rchunk'])
                cs[op['c']] = EojeolCounter(corpus, **kw)
                simio.disarm()
                mcs[op['c']] = Counter(count(sents, op['min_count'], op['max_length'], op['checkpoint'], pre))
        elif what == 'remove_covered':
            if mc.total and mc.counts:
                keys = sorted(mc.counts)
                drop = set(keys[int(op['where'] * len(keys)):]) | {'없는말'}
                (c.remove_covered_eojeols)(drop if op['to'] else {k: 1 for k in drop})
                mc.remove(drop)
        elif what == 'coverage':
            try:
                c.coverage = [1.5, -0.1][op['to']]
            except ValueError:
                pass
            else:
                raise Violation('coverage', 'a coverage outside of [0, 1] is accepted')
        elif what == 'save':
            c.save(path)
            saved[op['slot']] = dict(mc.counts)
        elif what == 'save_bad':
            if not failing(op, lambda: c.save(path)):
                saved[op['slot']] = dict(mc.counts)
        elif what in ('load', 'load_bad'):
            if op['slot'] in saved and (what == 'load' or not failing(op, lambda: c.load(path))):
                if what == 'load':
                    c.load(path)
                mcs[op['c']] = Counter(saved[op['slot']])
        elif what == 'to_lrgraph':
            gs[op['g']] = c.to_lrgraph(op['l'], op['r'], ignore_one_syllable=op['ignore'])
            mgs[op['g']] = Graph(pairs(mc.counts, op['l'], op['r'], op['ignore']))
        elif what == 'graph':
            sents = plan['corpora'][op['corpus']]
            gs[op['g']] = LRGraph(sents=sents, l_max_length=op['l'], r_max_length=op['r'])
            mgs[op['g']] = Graph(pairs(count(sents, 1, 10 ** 9, 0, None), op['l'], op['r']))
        elif what == 'graph_dict':
            d = {}
            for (l, r), k in mg.edges.items():
                d.setdefault(l, {})[r] = k
            gs[op['to']] = LRGraph(lrgraph=d)
            mgs[op['to']] = Graph(mg.edges)
        elif what == 'feed':
            # eojeols of a counter, one by one, into a graph which has been built from something
            if mg.origin:
                for w, k in sorted(mc.counts.items())[:5]:
                    g.add_eojeol(w, k)
                    mg.add_eojeol(w, k)
        elif what == 'edit':
            if mg.origin:
                for name, x, y, k in op['edits']:
                    known = sorted({l + r for l, r in mg.edges}) if x < 0.8 and mg.edges else words
                    w = known[int(x * len(known)) % len(known)]
                    if name.endswith('eojeol'):
                        getattr(g, name)(w, k)
                        getattr(mg, name)(w, k)
                    else:
                        e = 1 + int(y * len(w)) % len(w)
                        getattr(g, name)(w[:e], w[e:], k)
                        getattr(mg, {'add_lr_pair': 'add', 'remove_lr_pair': 'remove'}[name])(w[:e], w[e:], k)
        elif what == 'reset':
            g.reset_lrgraph()
            mg.edges = dict(mg.origin)
        elif what == 'g_save':
            g.save(gpath)
            gsaved[op['slot']] = dict(mg.origin)
        elif what == 'g_save_bad':
            if not failing(op, lambda: g.save(gpath)):
                gsaved[op['slot']] = dict(mg.origin)
        elif what in ('g_load', 'g_load_bad'):
            if op['slot'] in gsaved and (what == 'g_load' or not failing(op, lambda: g.load(gpath))):
                if what == 'g_load':
                    g.load(gpath)
                mgs[op['g']] = Graph(gsaved[op['slot']])
        elif what == 'to_counter':
            new = g.to_EojeolCounter(reset_lrgraph=bool(op['c']))
            edges = mg.origin if op['c'] else mg.edges
            want = {}
            for (l, r), k in edges.items():
                want.setdefault(l + r, set()).add(k)
            have = dict(new.items())
            ctx.check(set(have) == set(want) and all(k in want[w] for w, k in have.items()), 'to-counter',
                      'the eojeols of an L-R graph are not those of its pairs')
            cs[op['to']], mcs[op['to']] = new, Counter(have)
        elif what == 'copy':
            if mg.origin:
                h = g.copy_compatified_lrgraph_origin()
                expect_graph(ctx, h, Graph(mg.origin), ls, rs, 'copy')
                h.remove_eojeol(words[int(op['where'] * len(words))])
        elif what == 'nouns':
            if mg.origin:
                from soynlp.noun import LRNounExtractor_v2
                e = LRNounExtractor_v2(verbose=op['fail'], min_num_of_features=op['feature'])
                e.train(g)
                if op['fail']:
                    ctx.sink.fail_at = ctx.sink.writes + 1 + int(op['where'] * 8)
                try:
                    e.extract(op['score'], 1, reset_lrgraph=op['reset'])
                except BrokenPipeError:
                    ctx.fault('stdout')
                    mg.edges = dict(mg.origin)
                else:
                    if op['reset']:
                        mg.edges = dict(mg.origin)
                    else:
                        mg.edges = dict(mg.origin)
                        expect_graph(ctx, g, mg, ls, rs, 'nouns', at_most=True)
                finally:
                    ctx.sink.fail_at = None
        when = what if not what.endswith('_bad') else what + ' failed'
        for x, m in zip(cs, mcs):
            expect_counter(ctx, x, m, words, when)
        for x, m in zip(gs, mgs):
            expect_graph(ctx, x, m, ls, rs, when)
        ctx.state((what, last, bool(mcs[op['c']].counts), bool(mgs[op['g']].edges), mgs[op['g']].edges == mgs[op['g']].origin))
        last = what
        ctx.log(n, what, sorted(mcs[op['c']].counts.items())[:20], sorted(mgs[op['g']].edges.items())[:20])
    ctx.interesting({'operations': [o['op'] for o in plan['ops']]})
