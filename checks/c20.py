"""C20: the tokens of a sentence are those which the scores, nouns and rules say. Tokenizers are made from given tables or from what
extractors learned, in a history of trainings, and are asked in sequence, interrupted and by several threads; the oracle chooses the
tokens on its own."""
import re

from sim import gen, sched
from sim.kernel import Inapplicable, Violation

from .maxscore import the_max
from .c19 import undisturbed

KINDS = ['l', 'l', 'l', 'max', 'max', 'max', 'lr', 'lr', 'lr', 'regex', 'nounl', 'nounmatch', 'nounmatch']
SLOTS = 3


def gen_table(rng, parts, v):
    """{part: score}; all scores are binary fractions, so that sums and differences are exact"""
    levels = rng.choice([[4, 8, 14], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16], [8], [2, 4, 6, 8, 16]])
    out = {rng.choice(parts): rng.choice(levels) / 16 for _ in range(rng.randint(0, 25))}
    if rng.random() < 0.2:
        out.update({w: -0.25 for w in rng.sample(sorted(out), len(out) // 4)})
    return out


def gen_call(rng, kind, n):
    c = {'kind': kind, 's': rng.randrange(n), 'flatten': rng.random() < 0.6, 'how': rng.choice(['tokenize', 'call']), 'omit': rng.random() < 0.3}
    if kind == 'l':
        c.update(tolerance=rng.choice([0.0, 0.0, 0.0625, 0.125, 0.25, 0.5, 1.0]), remove_r=rng.random() < 0.3)
    elif kind in ('regex', 'lr'):
        c['debug'] = rng.random() < 0.25
    elif kind in ('nounl', 'nounmatch'):
        c['compose'] = rng.random() < 0.6
    return c


def gen_plan(rng, index, tier):
    v = gen.vocabulary(rng)
    if rng.random() < 0.6:
        alphabet = rng.choice(['가나', '가나다', '가나다라마', '아이고는'])
        sents = [' '.join(gen.small_token(rng, alphabet, 1, rng.choice([4, 8, 12])) for _ in range(rng.randint(1, 4))) for _ in range(5)]
    else:
        sents = gen.corpus(rng, 5, 5, v)
    sents.append(''.join(rng.choice('가나ㅋㅠㅏab1é2.-+`\'[]s! ') for _ in range(rng.randint(1, 25))))
    sents.append(rng.choice(['', ' ', '가', '가나\t가\n나', '숫자123이영어abc에섞여있으면ㅋㅋ잘리겠죠', '3.1.2.1ㅋㅋㅜㅠ봐', 'Bob`s job.1', '+3.12같은-1.2like', '가나' * 30]))
    parts = sorted({w[b:e] for s in sents for w in s.split() for b in range(len(w)) for e in range(b + 1, min(len(w), b + 6) + 1)}) or ['가']
    corpora = [[s for s in rng.sample(sents[:5] * 3, rng.randint(3, 10))] if rng.random() < 0.5 else gen.corpus(rng, 3, 20, v) for _ in range(2)]
    # the table of a slot may be of one word only, of which many calls ask then
    focus = []
    for _ in range(SLOTS):
        s = rng.randrange(5)
        w = max(sents[s].split(), key=len)
        focus.append((s, sorted({w[b:e] for b in range(len(w)) for e in range(b + 1, min(len(w), b + 4) + 1)})) if rng.random() < 0.5 else (None, parts))
    tables = [gen_table(rng, focus[k][1], v) for k in range(SLOTS)]

    def called(x, kind):
        c = gen_call(rng, kind, len(sents))
        if focus[x][0] is not None and rng.random() < 0.6:
            c['s'] = focus[x][0]
        return c
    makes = []
    for k in range(SLOTS):
        common = sorted(tables[k]) if tables[k] and rng.random() < 0.7 else parts
        makes.append({'both': rng.random() < 0.4, 'ds': rng.choice([0.0, 0.0, 0.25, -0.5]), 'max_length': rng.choice([10, 10, 2, 3, 4]),
                      'as': rng.choice(['dict', 'dict', 'list', 'set']), 'builder': rng.random() < 0.2,
                      'Pl': gen_table(rng, common, v) if rng.random() < 0.4 else {}, 'Pr': gen_table(rng, common, v) if rng.random() < 0.4 else {},
                      'limits': [rng.choice([0.3, 0.1, 0.7, 1.01]), rng.choice([0.5, 1.5]), rng.choice([0.5, 0.25, 0.9]), rng.choice([0.3, 0.1, 0.7])]
                      if rng.random() < 0.4 else None})
    ops = []
    for _ in range(rng.randint(3, 14)):
        what = rng.choice(['tokens'] * 7 + ['threads', 'threads', 'table', 'table', 'train'])
        op = {'op': what}
        if what == 'tokens':
            x = rng.randrange(SLOTS)
            op.update(x=x, call=called(x, rng.choice(KINDS)), spoil=rng.random() < 0.3)
        elif what == 'threads':
            x, kind = rng.randrange(SLOTS), rng.choice(KINDS)
            op.update(tasks=[[[x if rng.random() < 0.7 else rng.randrange(SLOTS), called(x, kind if rng.random() < 0.8 else rng.choice(KINDS))]
                              for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))],
                      switches=gen.gaps(rng, rng.choice([1, 3, 10, 30]), rng.choice([2, 5, 15, 60])))
        elif what == 'table':
            x = rng.randrange(SLOTS)
            op.update(x=x, new=gen_table(rng, focus[x][1], v), source=rng.choice(['given', 'given', 'cohesion', 'entropy', 'nouns']))
        else:
            op.update(corpus=rng.randint(0, 1), min_frequency=rng.choice([1, 1, 2]))
        if what in ('tokens', 'train') and rng.random() < 0.25:
            op['how'] = rng.choice(['line', 'line', 'stdout'])
            op['where'] = rng.random()
        ops.append(op)
    return {'sents': sents, 'corpora': corpora, 'tables': tables, 'makes': makes, 'ops': ops}


# ------------------------------------------------------------------ model

def the_l(scores, ds, word, tolerance):
    """(L, R), or None when a score is at the border of the tolerance"""
    if len(word) <= 2:
        return word, ''
    ends = range(2, len(word) + 1)
    top = max(scores.get(word[:e], ds) for e in ends)
    gaps = {e: top - scores.get(word[:e], ds) for e in ends}
    if tolerance and any(abs(g - tolerance) < 1e-9 and g != tolerance for g in gaps.values()):
        return None
    e = max(e for e in ends if gaps[e] <= tolerance)
    return word[:e], word[e:]


def the_lr(dl, dr, pl, pr, limits, word):
    """[(L, R, begin, end of L, end of R)]"""
    near, ratio, sure, ahead = limits
    n = len(word)
    found = [(b, m, e) for b in range(n) for m in range(b + 1, n + 1) if word[b:m] in dl
             for e in range(m, n + 1) if (word[m:e] in dr if e > m else m > b + 1)]
    found.sort(key=lambda c: c[2])

    def sl(c):
        return dl[word[c[0]:c[1]]]

    def sr(c):
        return dr.get(word[c[1]:c[2]], 0)
    found.sort(key=lambda c: -sl(c))
    kept = []
    for i, c in enumerate(found):
        around = [d for d in found[i + 1:] if d[0] <= c[0] and c[1] <= d[1] and d[:2] != c[:2]]
        if not any(sl(c) - sl(d) < near or (sure * 0.5 < sl(c) and (sl(c) + 1e-5) / (sl(d) + 1e-5) < ratio) for d in around):
            kept.append(c)

    def taken(c):
        """A good L begins inside of R"""
        return any(c[1] <= d[0] < c[2] and (sure <= sl(d) or sl(d) + pl.get(word[d[0]:d[1]], 0) - sr(c) > ahead) for d in kept)

    def total(c):
        l, r = word[c[0]:c[1]], word[c[1]:c[2]]
        return (sl(c) + sr(c) if r else 2 * sl(c)) + pl.get(l, 0) + pr.get(r, 0)
    rest = sorted((c for c in kept if not taken(c)), key=lambda c: (-total(c), -sl(c), -sr(c), c[0], c[0] - c[1]))
    best = []
    while rest:
        best.append(rest[0])
        rest = [c for c in rest if c[2] <= best[-1][0] or c[0] >= best[-1][2]]
    out, at = [], 0
    for b, m, e in sorted(best) + [(n, n, n)]:
        if at < b:
            for w, x, y, _, _ in the_max(dr, 0.0, 10, word[at:b]):
                out.append(('', w, at + x, at + x, at + y) if w in dr else (w, '', at + x, at + y, at + y))
        if b < e:
            out.append((word[b:m], word[m:e], b, m, e))
        at = e
    return out


def the_regex(word):
    """An eojeol, cut at numbers, then at syllables, consonants, vowels and latin letters"""
    pieces = [word]
    for p in (r'[-+]?[0-9]*[.]?[0-9]+|[-+]?[0-9]+', '[가-힣]+', '[ㄱ-ㅎ]+', '[ㅏ-ㅣ]+', r"[a-zA-ZÀ-ÿ]+(?:[`']s)*"):
        out = []
        for x in pieces:
            at = 0
            for m in re.finditer(p, x):
                out += [x[at:m.start()], m.group()]
                at = m.end()
            out.append(x[at:])
        pieces = [x for x in out if x]
    return pieces


def the_nounl(nouns, word):
    out, at = [], 0
    while True:
        ends = [e for e in range(at + 1, len(word) + 1) if word[at:e] in nouns]
        if not ends:
            return out
        out.append(word[at:ends[-1]])
        at = ends[-1]


def the_nounmatch(scores, word, compose):
    words = [w for w in the_max(scores, 0.0, 10, word) if w[3] > 0]
    if not compose:
        return words
    out = []
    for _, b, e, s, _ in words:
        if out and out[-1][2] == b:
            b, s = out[-1][1], max(s, out[-1][3])
            out.pop()
        out.append((word[b:e], b, e, s, e - b))
    return out


# ------------------------------------------------------------------ run

def execute(plan, ctx):
    from soynlp import tokenizer as t
    from soynlp.noun import LRNounExtractor_v2
    from soynlp.word import WordExtractor
    if len(plan['sents']) < 2 or len(plan['tables']) < SLOTS or len(plan['makes']) < SLOTS or len(plan['corpora']) < 2 \
            or any(not c or not any(s.strip() for s in c) for c in plan['corpora']):
        raise Inapplicable()
    sents = plan['sents']
    tables = [dict(x) for x in plan['tables']]
    given = [None] * SLOTS
    made = [None] * SLOTS
    models = [None] * SLOTS
    learned = {}

    def make(k):
        """The tokenizers of a slot, and what is known of them"""
        m, scores = plan['makes'][k], tables[k]
        positive = {w: s for w, s in scores.items() if s > 0}
        flat = m['as'] != 'dict'
        form = {'dict': dict, 'list': sorted, 'set': set}[m['as']]
        words = sorted(positive)
        dl, dr = {w: positive[w] for w in words[::2]}, {w: positive[w] for w in words[1::2]}
        if m['both']:
            dl, dr = dict(positive), dict(positive)
        gl, gr = form(dl), form(dr)
        pl, pr = dict(m['Pl']), dict(m['Pr'])
        graph = {}
        for w in words:
            if len(w) > 1:
                graph.setdefault(w[:1], {})[w[1:]] = 1
        own = dict(scores)
        kw = {}
        if m['limits']:
            kw = dict(zip(('max_lscore_difference', 'max_lscore_diffratio', 'ensurable_score_l', 'ensurable_score_lr_diff'), m['limits']))
        if m['builder']:
            kw.update(lrgraph=graph, tokenizer_builder=lambda g: ({l: 0.75 for l in g}, {r: 0.75 for d in g.values() for r in d}))
        nouns = own if m['as'] == 'dict' else form(own)
        made[k] = {'l': t.LTokenizer(own, m['ds']), 'max': t.MaxScoreTokenizer(own, max_length=m['max_length'], default_score=m['ds']),
                   'lr': t.MaxLRScoreTokenizer(Dl=gl, Dr=gr, preference_l=pl, preference_r=pr, **kw), 'regex': t.RegexTokenizer(),
                   'nounl': t.NounLMatchTokenizer(nouns), 'nounmatch': t.NounMatchTokenizer(own)}
        given[k] = [(x, x.copy()) for x in (own, gl, gr, pl, pr, nouns)]
        dl_, dr_ = [{w: 1.0 for w in d} if flat else dict(d) for d in (dl, dr)]
        if m['builder']:
            dl_, dr_ = dict({w[:1]: 0.75 for w in words if len(w) > 1}, **dl_), dict({w[1:]: 0.75 for w in words if len(w) > 1}, **dr_)
        for d, p in ((dl_, pl), (dr_, pr)):
            for w in p:
                d.setdefault(w, 1.0)
        models[k] = {'scores': dict(scores), 'm': m, 'dl': dl_, 'dr': dr_, 'pl': dict(pl), 'pr': dict(pr), 'limits': m['limits'] or [0.3, 0.5, 0.5, 0.3]}

    def ask(k, c):
        x = made[k][c['kind']]
        f = x.tokenize if c['how'] == 'tokenize' else x
        s = sents[c['s'] % len(sents)]
        args = [('tolerance', 'tolerance', 0.0), ('flatten', 'flatten', True), ('remove_r', 'remove_r', False), ('debug', 'debug', c['how'] == 'call'),
                ('compose', 'compose_compound', True)]
        return f(s, **{name: c[a] for a, name, documented in args if a in c and not (c['kind'] == 'nounl' and a == 'flatten')
                       and not (c.get('omit') and c[a] == documented)})

    def expected(k, c):
        m = models[k]
        scores, ds = m['scores'], m['m']['ds']
        words = sents[c['s'] % len(sents)].split()
        kind, flat = c['kind'], c['flatten']
        if kind == 'l':
            out = [the_l(scores, ds, w, c['tolerance']) for w in words]
            if None in out:
                return None
            if c['remove_r']:
                return [l for l, _ in out]
            return [x for lr in out for x in lr if x] if flat else out
        if kind == 'max':
            out = [the_max(scores, ds, m['m']['max_length'], w) for w in words]
            return [x[0] for ws in out for x in ws] if flat else out
        if kind == 'lr':
            out = [the_lr(m['dl'], m['dr'], m['pl'], m['pr'], m['limits'], w) for w in words]
            if not c['debug']:
                out = [[x for l, r, _, _, _ in ws for x in ((l, 'L'), (r, 'R')) if x[0]] for ws in out]
            return [x for ws in out for x in ws] if flat else out
        if kind == 'regex':
            out = [the_regex(w) for w in words]
            return [x for ws in out for x in ws] if flat else out
        if kind == 'nounl':
            out = [the_nounl(scores, w) for w in words]
            return [''.join(ws) for ws in out if ws] if c['compose'] else [x for ws in out for x in ws]
        out = [the_nounmatch(scores, w, c['compose']) for w in words]
        return [x[0] for ws in out for x in ws] if flat else out

    def check(k, c, got, when):
        ctx.count('evaluations')
        want = expected(k, c)
        if want is None:
            return
        shown = got
        if c['kind'] == 'lr' and c['debug']:
            shown = [x[:5] for x in got] if c['flatten'] else [[x[:5] for x in ws] for ws in got]
        if plain(shown) != plain(want):
            raise Violation('tokens', 'the tokens of a sentence are not those which the scores give ({}, {})'.format(c['kind'], when),
                            sentence=sents[c['s'] % len(sents)], call=c, got=plain(shown), expected=plain(want))

    def unchanged(when):
        for pairs in given:
            if any(x != y for x, y in pairs):
                raise Violation('input', 'a tokenizer changes the scores which it was given ({})'.format(when))

    for k in range(SLOTS):
        make(k)
    last = None
    for n, op in enumerate(plan['ops']):
        when = op['op']
        if when == 'tokens':
            out = undisturbed(ctx, op, lambda: ask(op['x'], op['call']), None)
            if out is not None:
                check(op['x'], op['call'], out, when)
                if op['spoil']:
                    for x in out:
                        if isinstance(x, list):
                            x.reverse()
                    del out[1:]
            again = ask(op['x'], op['call'])
            check(op['x'], op['call'], again, 'again')
            ctx.log(plain(again))
        elif when == 'threads':
            results = [[] for _ in op['tasks']]

            def body(k):
                def fn():
                    for x, c in op['tasks'][k]:
                        results[k].append(ask(x, c))
                return fn
            s = sched.Scheduler([body(k) for k in range(len(op['tasks']))], op['switches'])
            out = s.run()
            ctx.fault('thread-switch', len(s.trace))
            for k, (status, value) in enumerate(out):
                if status == 'raised':
                    raise Violation('thread', 'a tokenizer fails beside others: {}: {}'.format(type(value).__name__, value))
                for (x, c), r in zip(op['tasks'][k], results[k]):
                    check(x, c, r, 'beside other threads')
        elif when == 'table':
            k, source = op['x'], op['source']
            table = dict(op['new'])
            if source in learned:
                table.update({w: s for w, s in learned[source].items() if s == s})
                ctx.count('learned')
            tables[k] = table
            make(k)
        else:
            docs = plan['corpora'][op['corpus']]

            def learn():
                x = WordExtractor(min_frequency=op['min_frequency'])
                x.train(list(docs))
                scores = x.word_scores()
                y = LRNounExtractor_v2(verbose=False, min_num_of_features=1, extract_compound=False)
                nouns = y.train_extract(list(docs), min_noun_score=0.1, min_noun_frequency=1)
                return ({w: float(s.cohesion_forward) for w, s in scores.items()}, {w: float(s.right_branching_entropy) for w, s in scores.items()},
                        {w: float(s.score) for w, s in nouns.items()})
            out = undisturbed(ctx, op, learn, None)
            if out is not None:
                learned = dict(zip(('cohesion', 'entropy', 'nouns'), out))
        unchanged(when)
        c = op.get('call') or {}
        ctx.state((when, op.get('how'), c.get('kind'), c.get('flatten'), c.get('tolerance', 0) > 0, last))
        last = when
        ctx.log(n, when, sorted(tables[op.get('x', 0)].items()))
    ctx.interesting({'operations': [o['op'] for o in plan['ops']]})


def plain(x):
    return [plain(v) for v in x] if isinstance(x, (list, tuple)) else x
