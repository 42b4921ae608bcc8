"""C12: word statistics (word extractor, bigrams, eojeol patterns) are exact, through every history of trainings, failed trainings,
saving, loading and queries. The oracle counts on its own and computes every score from its own counts."""
import math
import os

from sim import gen, sched, simio
from sim.kernel import Inapplicable, Violation

from .c05 import steps_of, writes_of
from .trainables import FaultyCorpus, corpus_of, tokenizer_of

BIGRAM = {'min_frequency': 5, 'score': 'frequency', 'filtering_checkpoint': 100000}
PATTERN = {'max_left_length': 10, 'max_right_length': 6, 'min_frequency': 10}
CONFIG = {'max_left_length': 10, 'max_right_length': 6, 'min_frequency': 5, 'min_cohesion_forward': 0.05, 'min_cohesion_backward': 0.0,
          'max_droprate_leftside_frequency': 0.98, 'min_left_branching_entropy': 0.0, 'min_right_branching_entropy': 0.0,
          'min_left_accessor_variety': 0, 'min_right_accessor_variety': 0, 'remove_subwords': False}


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def entropy(counts):
    n = sum(counts)
    return -sum(c / n * math.log(c / n) for c in counts) if counts else 0.0


# ------------------------------------------------------------------ word extractor

class Words:
    """(L, R, L followed by a character, R after a character)"""

    def __init__(self, config):
        self.config = dict(CONFIG, **config)
        self.tables = ({}, {}, {}, {})

    def train(self, sents, prune, cumulate):
        """-> (least, most) of the tables; they are equal without pruning"""
        c = self.config
        start = self.tables if cumulate else ({}, {}, {}, {})
        most, least = [dict(t) for t in start], [dict(t) for t in start]

        def add(table, key, both=True):
            for x in (most, least):
                x[table][key] = x[table].get(key, 0) + 1

        for i, sent in enumerate(sents):
            words = sent.split()
            for w in words:
                if len(w) > 1:
                    for e in range(1, len(w) + 1):
                        if e <= c['max_left_length'] + 1:
                            add(0, w[:e])
                    for b in range(1, len(w)):
                        if len(w) - b <= c['max_right_length']:
                            add(1, w[b:])
            if len(words) > 1:
                for k, w in enumerate(words):
                    after, before = words[(k + 1) % len(words)][0], words[k - 1][-1]
                    add(2, w + ' ' + after)
                    add(3, before + ' ' + w)
                    for e in range(1, len(w)):
                        if e <= c['max_right_length']:
                            add(2, w[-e:] + ' ' + after)
                        if e <= c['max_left_length']:
                            add(3, before + ' ' + w[:e])
            if prune and i % prune == 0:
                for t in (0, 1):
                    least[t] = {w: n for w, n in least[t].items() if n >= c['min_frequency']}
        out = []
        for x in (least, most):
            out.append(tuple({w: n for w, n in x[t].items() if n >= (c['min_frequency'] if t < 2 else 2)} for t in range(4)))
        return out

    def sides(self, w):
        l, r, la, ra = self.tables
        chars = self.chars
        right = [l[w + c] for c in chars if w + c in l] + [la[w + ' ' + c] for c in chars if w + ' ' + c in la]
        left = [r[c + w] for c in chars if c + w in r] + [ra[c + ' ' + w] for c in chars if c + ' ' + w in ra]
        return left, right


def word_views(ctx, x, m, when):
    """The statistics of extractor x are those of model m"""
    ctx.count('evaluations')
    c = m.config
    l, r = m.tables[:2]
    for got, want, side in ((x.L, l, 'left'), (x.R, r, 'right')):
        if dict(got) != want:
            w = sorted(w for w in set(got) | set(want) if got.get(w) != want.get(w))[0]
            raise Violation('frequency', 'a word extractor counts wrongly ({})'.format(when), word=w, side=side, counted=got.get(w), is_=want.get(w))
    words = {w for w in l if len(w) <= c['max_left_length']} | {w for w in r if len(w) <= c['max_right_length']}
    if set(x.words()) != words:
        raise Violation('words', 'words() are not the counted words ({})'.format(when))
    scores = x.word_scores()
    if set(scores) != words:
        raise Violation('words', 'word_scores() are not of the counted words ({})'.format(when))
    want = {}
    step = 1 + len(words) // 600        # (a question about one word is slow when there are many)
    for i, w in enumerate(sorted(words)):
        left, right = m.sides(w)
        s = scores[w]
        n = len(w)
        cohesion = (0, 0) if n == 1 else ((l[w] / l[w[0]]) ** (1 / (n - 1)) if w in l else 0, (r[w] / r[w[-1]]) ** (1 / (n - 1)) if w in r else 0)
        be = entropy(left), entropy(right)
        av = len(left), len(right)
        if x.frequency(w) != (l.get(w, 0), r.get(w, 0)) or (s.leftside_frequency, s.rightside_frequency) != x.frequency(w):
            raise Violation('frequency', 'frequencies of a word disagree ({})'.format(when), word=w)
        for name, got in (('cohesion_score', x.cohesion_score(w)), ('word_scores', (s.cohesion_forward, s.cohesion_backward))):
            if not (close(got[0], cohesion[0]) and close(got[1], cohesion[1])):
                raise Violation('cohesion', 'cohesion of a word is not that of its counts ({})'.format(when), word=w, of=name, got=list(map(float, got)), is_=list(cohesion))
        got = x.branching_entropy(w) if i % step == 0 else be
        if not (close(got[0], be[0]) and close(got[1], be[1])):
            raise Violation('entropy', 'branching entropy of a word is not that of its counts ({})'.format(when), word=w, got=list(got), is_=list(be))
        if i % step == 0 and tuple(x.accessor_variety(w)) != av:
            raise Violation('variety', 'accessor variety of a word is not that of its counts ({})'.format(when), word=w, got=list(x.accessor_variety(w)), is_=list(av))
        if n < c['max_left_length'] and not (close(s.right_branching_entropy, be[1]) and s.right_accessor_variety == av[1]):
            raise Violation('word_scores', 'right scores of a word are not those of its counts ({})'.format(when), word=w,
                            got=[s.right_branching_entropy, s.right_accessor_variety], is_=[be[1], av[1]])
        if n < c['max_right_length'] and not (close(s.left_branching_entropy, be[0]) and s.left_accessor_variety == av[0]):
            raise Violation('word_scores', 'left scores of a word are not those of its counts ({})'.format(when), word=w,
                            got=[s.left_branching_entropy, s.left_accessor_variety], is_=[be[0], av[0]])
        ok = (s.left_branching_entropy >= c['min_left_branching_entropy'] and s.right_branching_entropy >= c['min_right_branching_entropy']
              and s.left_accessor_variety >= c['min_left_accessor_variety'] and s.right_accessor_variety >= c['min_right_accessor_variety']
              and max(l.get(w, 0), r.get(w, 0)) >= c['min_frequency']
              and (n == 1 or (s.cohesion_forward >= c['min_cohesion_forward'] and s.cohesion_backward >= c['min_cohesion_backward'])))
        if ok:
            want[w] = s
    if c['remove_subwords']:
        for w in list(want):
            if w[:-1] in l and l.get(w, 0) / l[w[:-1]] > c['max_droprate_leftside_frequency']:
                want[w[:-1]] = None
        want = {w: s for w, s in want.items() if s is not None}
    got = x.extract()
    if set(got) != set(want) or any(tuple(got[w]) != tuple(want[w]) for w in want):
        raise Violation('extract', 'extracted words are not those which satisfy the thresholds ({})'.format(when),
                        words=sorted(set(got) ^ set(want))[:5])


def adopt(ctx, x, m, bounds, when):
    """The model after a training; with pruning it is what the extractor has, which must be within the bounds"""
    least, most = bounds
    for t, got, side in ((0, x.L, 'left'), (1, x.R, 'right')):
        for w in set(least[t]) | set(got):
            n = got.get(w, 0)
            if not least[t].get(w, 0) <= n <= most[t].get(w, 0):
                raise Violation('pruned', 'a word extractor counts wrongly while pruning ({})'.format(when), word=w, side=side, counted=n,
                                between=[least[t].get(w, 0), most[t].get(w, 0)])
    m.tables = (dict(x.L), dict(x.R), most[2], most[3])


# ------------------------------------------------------------------ bigrams, patterns

def bigrams(sents, config, tok):
    counts = {}
    for i, s in enumerate(sents):
        if config['filtering_checkpoint'] > 0 and i % config['filtering_checkpoint'] == 0:
            counts = {k: n for k, n in counts.items() if n >= config['min_frequency']}
        ws = tok(s)
        for k in range(1, len(ws)):
            counts[(ws[k - 1], ws[k])] = counts.get((ws[k - 1], ws[k]), 0) + 1
    return {k: n for k, n in counts.items() if n >= config['min_frequency']}


def bigram_views(ctx, x, m, when):
    ctx.count('evaluations')
    if m is None:
        if x.is_trained:
            raise Violation('bigram', 'a bigram extractor which was never trained has a model ({})'.format(when))
        return
    words, total = {}, 2 * sum(m.values())
    for k, n in m.items():
        for w in k:
            words[w] = words.get(w, 0) + n
    if x.score == 'frequency':
        scores = dict(m)
    elif x.score == 'pmi':
        scores = {k: math.log(total * n / words[k[0]] / words[k[1]]) for k, n in m.items()}
    else:
        scores = {k: (n - x.min_frequency) / words[k[0]] / words[k[1]] for k, n in m.items()}
    for t, top in ((-1e9, -1), (2, -1), (0.1, 3), (-1e9, 2), (0, -1)):
        got = x.extract(topk=top, threshold=t) if t else x.extract()
        for k, s in got.items():
            if k not in m or s.frequency != m[k] or not close(s.score, scores[k]):
                raise Violation('bigram', 'frequency or score of a bigram is wrong ({})'.format(when), bigram=list(k), got=list(s),
                                expected=[m.get(k), scores.get(k)])
        sure, maybe = [k for k in m if scores[k] > t + 1e-9], [k for k in m if abs(scores[k] - t) <= 1e-9]
        if x.score == 'frequency' or t == 2:
            sure, maybe = sure + [k for k in maybe if scores[k] >= t], []
        if top > 0:
            least = min((scores[k] for k in got), default=0)
            if not min(top, len(sure)) <= len(got) <= top or not set(got) <= set(sure + maybe) or any(k not in got and scores[k] > least + 1e-9 for k in sure if got):
                raise Violation('bigram', 'the best bigrams of a bigram extractor are wrong ({})'.format(when), asked=top, got=len(got), there_are=len(sure))
        elif not set(sure) <= set(got) <= set(sure + maybe):
            raise Violation('bigram', 'bigrams are not those which reach the threshold ({})'.format(when), bigrams=sorted(set(got) ^ set(sure))[:3])


def patterns(sents, config, given):
    ml, mr, mf = config['max_left_length'], config['max_right_length'], config['min_frequency']
    if given and given[0] and given[1]:
        ls, rs = set(given[0]), set(given[1])
    else:
        lc, rc = {}, {}
        for s in sents:
            for w in s.split():
                for i in range(1, len(w) + 1):
                    if i <= ml:
                        lc[w[:i]] = lc.get(w[:i], 0) + 1
                    if len(w) > i and i < mr:
                        rc[w[-i:]] = rc.get(w[-i:], 0) + 1
        ls, rs = ({w for w, n in t.items() if n >= mf} for t in (lc, rc))
    rs |= {''}
    out = {}
    for s in sents:
        for w in s.split():
            for i in range(1, min(ml, len(w)) + 1):
                if w[:i] in ls and w[i:] in rs:
                    out[(w[:i], w[i:])] = out.get((w[:i], w[i:]), 0) + 1
    return out


def pattern_views(ctx, x, m, when):
    ctx.count('evaluations')
    if m is None:
        if x.lrgraph is not None or x.rlgraph is not None:
            raise Violation('pattern', 'a pattern trainer which was never trained has a model ({})'.format(when))
        return
    forth = {(l, r): n for l, d in x.lrgraph.items() for r, n in d.items()}
    back = {(l, r): n for r, d in x.rlgraph.items() for l, n in d.items()}
    for got, side in ((forth, 'lrgraph'), (back, 'rlgraph')):
        if got != m:
            k = sorted(k for k in set(got) | set(m) if got.get(k) != m.get(k))[0]
            raise Violation('pattern', 'a pattern trainer counts wrongly ({})'.format(when), pair=list(k), of=side, counted=got.get(k), is_=m.get(k))


# ------------------------------------------------------------------ plan

def gen_config(rng, kind):
    if kind == 'words':
        return {'max_left_length': rng.choice([3, 4, 10]), 'max_right_length': rng.choice([2, 3, 6]), 'min_frequency': rng.choice([1, 1, 2, 3]),
                'min_cohesion_forward': rng.choice([0.0, 0.05, 0.3]), 'min_cohesion_backward': rng.choice([0.0, 0.0, 0.2]),
                'max_droprate_leftside_frequency': rng.choice([0.98, 0.5]), 'remove_subwords': rng.random() < 0.5,
                'min_left_branching_entropy': rng.choice([0.0, 0.1]), 'min_right_branching_entropy': rng.choice([0.0, 0.1]),
                'min_left_accessor_variety': rng.choice([0, 0, 1]), 'min_right_accessor_variety': rng.choice([0, 0, 2])}
    if kind == 'bigrams':
        return {'min_frequency': rng.choice([1, 1, 2]), 'score': rng.choice(['frequency', 'pmi', 'mikolov']),
                'filtering_checkpoint': rng.choice([0, 1, 4, 100000])}
    return {'max_left_length': rng.choice([3, 10]), 'max_right_length': rng.choice([2, 6]), 'min_frequency': rng.choice([1, 1, 2])}


def gen_plan(rng, index, tier):
    kind = ['words', 'words', 'bigrams', 'patterns'][index % 4]
    v = gen.vocabulary(rng)
    corpora = []
    for _ in range(3):
        if rng.random() < 0.5:
            corpora.append(gen.corpus(rng, 2, 14, v))
        else:
            alphabet = rng.choice(['가나', '가나다', '가나ab1ㅋ', 'aAbB'])
            corpora.append([' '.join(gen.small_token(rng, alphabet, 1, rng.choice([2, 4, 13])) for _ in range(rng.randint(1, 7)))
                            for _ in range(rng.randint(2, 20))])
    ops = []
    for _ in range(rng.randint(3, 10)):
        x = rng.random()
        op = {'on': rng.randint(0, 1), 'where': rng.random(), 'corpus': rng.randint(0, 2), 'op': 'train'}
        if x < 0.4 or (x > 0.6 and kind == 'bigrams'):
            op.update(form=rng.choice(['list', 'iter', 'file']), verbose=rng.random() < 0.5)
        elif x < 0.6:
            op.update(op='fail', how=rng.choice(['corpus', 'corpus', 'stdout', 'line', 'line', 'line']), form='iter', verbose=rng.random() < 0.8,
                      **{'pass': rng.choice([0, 0, 1])})
        else:
            op.update(op=rng.choice(['save', 'save', 'load', 'load', 'save_bad', 'load_bad']), slot=rng.choice([0, 0, 1]))
        if kind == 'words' and op['op'] in ('train', 'fail'):
            op.update(prune=rng.choice([0, 0, 0, 1, 2, 5]), cumulate=rng.random() < 0.7)
        if kind == 'patterns' and op['op'] in ('train', 'fail'):
            op['given'] = None
            if rng.random() < 0.4:
                ws = sorted({w for s in corpora[op['corpus']] for w in s.split()})
                op['given'] = [[w[:rng.randint(1, 4)] for w in rng.sample(ws, min(len(ws), 6))], [w[-rng.randint(1, 3):] for w in rng.sample(ws, min(len(ws), 6))]]
        ops.append(op)
    config = [gen_config(rng, kind), gen_config(rng, kind)]
    omit = rng.random() < 0.25
    if omit:
        # some parameters are left out
        config = [{k: x for k, x in c.items() if rng.random() < 0.6} for c in config]
        corpora = [c * rng.choice([1, 3, 6, 12]) for c in corpora]
    return gen.make_large({'kind': kind, 'corpora': corpora, 'tok': rng.choice(['words', 'chars', 'prefix', 'letters', 'ngrams']), 'config': config,
            'omit': omit, 'ops': ops, 'rchunk': rng.choice([0, 0, 7])}, index, 37, (1000, 2000), 2)


# ------------------------------------------------------------------ run

def execute(plan, ctx):
    plan = gen.unfold(plan)
    from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
    from soynlp.word import WordExtractor
    from soynlp.word._phrase import Bigram
    kind = plan['kind']
    if len(plan['corpora']) < 3 or len(plan['config']) < 2 or any(not c or not all(s.strip() for s in c) for c in plan['corpora']):
        raise Inapplicable()
    os.makedirs('d')
    root = os.path.abspath('d')
    chars = sorted({c for s in plan['corpora'] for c in ''.join(s)} - {' '})
    tok = tokenizer_of(plan['tok'])
    if kind == 'words':
        xs = [WordExtractor(verbose_points=-1, **c) for c in plan['config']]
        ms = [Words(c) for c in plan['config']]
        for m in ms:
            m.chars = chars
        views = word_views
    elif kind == 'bigrams':
        with_tok = {} if plan['omit'] and plan['tok'] == 'words' else {'tokenizer': tok}
        xs = [Bigram(verbose=False, **with_tok, **c) for c in plan['config']]
        ms = [None, None]
        configs = [dict(BIGRAM, **c) for c in plan['config']]
        views = bigram_views
    else:
        xs = [EojeolPatternTrainer(verbose=False, **c) for c in plan['config']]
        ms = [None, None]
        configs = [dict(PATTERN, **c) for c in plan['config']]
        views = pattern_views
    trained, saved = [False, False], {}
    last = None
    for n, op in enumerate(plan['ops']):
        i = op['on']
        x = xs[i]
        path = os.path.join(root, 'm{}'.format(op.get('slot')))
        sents = plan['corpora'][op['corpus']]
        when = op['op']
        if op['op'] in ('train', 'fail'):
            x.verbose = ((1000 if plan.get('large') else 1) if kind == 'words' else True) if op['verbose'] else (-1 if kind == 'words' else False)
            corpus = corpus_of(op['form'], sents, os.path.join(root, 'corpus{}'.format(n)))
            simio.arm([root], rchunk=plan['rchunk'])

            def train():
                if kind == 'words' and plan['omit'] and not op['prune'] and op['cumulate']:
                    x.train(corpus)
                elif kind == 'words':
                    x.train(corpus, num_for_pruning=op['prune'], cumulate=op['cumulate'])
                elif kind == 'bigrams':
                    x.train(corpus)
                elif op['given']:
                    x.train(corpus, set(op['given'][0]), set(op['given'][1]))
                else:
                    x.train(corpus)
            complete = True
            if op['op'] == 'fail':
                complete = disturbed(ctx, op, corpus, train)
                when = 'training failed: ' + op['how']
            else:
                train()
            simio.disarm()
            if complete is not False:
                if kind == 'words':
                    bounds = ms[i].train(sents, op['prune'], op['cumulate'])
                    new = Words(ms[i].config)
                    new.chars = chars
                    if complete:
                        adopt(ctx, x, new, bounds, when)
                        ms[i] = new
                    elif dict(x.L) != ms[i].tables[0] or dict(x.R) != ms[i].tables[1]:
                        # interrupted after the new model was complete
                        adopt(ctx, x, new, bounds, when)
                        ms[i] = new
                    else:
                        # looks as before; unless the new model looks the same, it must be as before
                        new.tables = ms[i].tables[:2] + bounds[1][2:]
                        verbose, x.verbose = x.verbose, -1
                        try:
                            views(ctx, x, new, when)
                        except Violation:
                            x.verbose = verbose
                        else:
                            # nobody can tell which of both it is
                            xs[i], ms[i] = WordExtractor(verbose_points=-1, **ms[i].config), Words(ms[i].config)
                            ms[i].chars = chars
                    trained[i] = True
                else:
                    if kind == 'bigrams':
                        new = bigrams(sents, configs[i], tok)
                        old_kept = lambda: not x.is_trained if ms[i] is None else {k: s.frequency for k, s in x.extract(threshold=-1e9).items()} == ms[i]
                    else:
                        new = patterns(sents, configs[i], op['given'])
                        old_kept = lambda: x.lrgraph is None if ms[i] is None else {(l, r): k for l, d in x.lrgraph.items() for r, k in d.items()} == ms[i]
                    if complete or not old_kept():
                        ms[i] = new
                    trained[i] = True
        elif kind == 'patterns' and ms[i] is None:
            continue
        elif kind != 'bigrams':
            fault = {'ops': ['write', 'openw', 'fsync', 'rename'] if 'save' in op['op'] else ['read', 'openr'], 'nth': int(op['where'] * 3), 'action': 'errno', 'arg': 'EIO'}
            if 'load' in op['op'] and op['slot'] not in saved:
                continue
            failed = False
            simio.arm([root], [fault] if op['op'].endswith('_bad') else [], rchunk=plan['rchunk'])
            try:
                (x.save if 'save' in op['op'] else x.load)(path)
            except OSError:
                if not simio.fired(1)[0]:
                    raise
                ctx.fault(op['op'])
                failed = True
            finally:
                fired = op['op'].endswith('_bad') and simio.fired(1)[0]
                simio.disarm()
            if fired and not failed:
                raise Violation('swallowed', '{} swallows an error'.format(op['op']))
            if not failed and 'save' in op['op']:
                saved[op['slot']] = (ms[i].config, ms[i].tables) if kind == 'words' else (configs[i], ms[i])
            elif not failed:
                if kind == 'words':
                    ms[i] = Words(saved[op['slot']][0])
                    ms[i].tables, ms[i].chars = saved[op['slot']][1], chars
                else:
                    configs[i], ms[i] = dict(saved[op['slot']][0]), saved[op['slot']][1]
        for k in (0, 1):
            v = xs[k].verbose
            xs[k].verbose = False if kind != 'words' else -1
            views(ctx, xs[k], ms[k], when)
            xs[k].verbose = v
        ctx.state((kind, when, last, op.get('cumulate'), bool(op.get('prune')), trained[i]))
        last = when
        ctx.log(n, when, sorted((ms[i].tables[0] if kind == 'words' else ms[i] or {}).items())[:30])
    ctx.interesting({'kind': kind, 'operations': [o['op'] for o in plan['ops']]})


def disturbed(ctx, op, corpus, train):
    """True: completed; False: failed, the old model must be there; None: interrupted, either model may be there"""
    if op['how'] == 'corpus':
        if not isinstance(corpus, FaultyCorpus):
            raise Inapplicable()
        exc = RuntimeError('injected')
        corpus.fault = (op['pass'], int(op['where'] * len(corpus)) % len(corpus), exc)
        try:
            train()
        except RuntimeError as e:
            if e is not exc:
                raise
            ctx.fault('corpus')
            return False
        if corpus.fired:
            raise Violation('swallowed', 'training goes on over a failing corpus')
        return True
    if op['how'] == 'stdout':
        writes = writes_of(ctx, train)
        if not writes:
            train()
            return True
        ctx.sink.fail_at = ctx.sink.writes + 1 + int(op['where'] * writes)
        try:
            train()
        except BrokenPipeError:
            ctx.fault('stdout')
            return None
        finally:
            ctx.sink.fail_at = None
        raise Violation('swallowed', 'training swallows a failing output')
    total = steps_of(ctx, train)
    s = sched.Steps(interrupt_at=1 + int(op['where'] * total), exc=KeyboardInterrupt)
    try:
        with s:
            train()
    except KeyboardInterrupt:
        if s.where is None:
            raise
        ctx.fault('interrupted-line')
        return None
    return True
