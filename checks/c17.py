"""C17: extracted eomis, stems, adjectives and verbs are those which the trained corpus and the dictionaries give, through every history
of trainings, extractions and interruptions. The oracle counts and conjugates on its own."""
import math
import os

from sim import gen, simio
from sim.kernel import Inapplicable, Violation

from .c12 import close
from .c16 import Graph, counter_of, disturbed, entropy, expect_graph, expect_nouns, graph_of_counts
from .korean import conjugate, jamo, lemmas, normalized, stem_surfaces
from .trainables import corpus_of

STEMS = ['가', '구르', '귀엽', '깨닫', '꿈꾸', '낫', '놀', '더럽', '덕질하', '돕', '들어가', '만들', '먹', '반짝거리', '보', '빛나', '사과하', '사랑하',
         '시작하', '아니', '예쁘', '오', '이르', '읽', '입', '자', '자랑스럽', '잡', '좋아지', '주', '크', '파랗', '푸', '하', '학생이',
         '좋', '놓', '그렇', '시퍼렇', '벗', '붓', '모으', '트', '곱', '아름답', '새롭', '가깝', '받', '듣', '배우', '그리우', '돌아오', '나가', '만지',
         '쉬', '되', '푸르', '치르', '쏘', '두', '동그랗', '짓', '꽃답', '똑같', '공부시키', '이용당하', '그럴만하', '향기롭', '자랑시럽', '이용당허', '닮', '넓', '많', '싫', '앉', '없', '핥', '읊', '삶', '깎',
         '닫', '키우', '뜯', '켜', '흐르', '퍼', '띄', '꿰', '뛰', '시꺼멓', '하얗', '고맙', '춥']
EOMIS = ['ㄴ', 'ㄴ다', 'ㄴ다고', 'ㄹ', 'ㄹ까', 'ㅂ니다', '거나', '게', '고', '고있는', '까', '냐고', '는', '는다', '니까', '다', '던', '며', '면서', '습니다',
         '아', '아라', '아서', '았고', '았다', '어', '어라', '어서', '었고', '었다', '을까', '자', '지만',
         'ㅁ', '네', '니', '면', '은', '음', '으면', '려고', '우려고', '울까', 'ㅆ다', '어도', '았었다', '아라니깐', '시고', '러']


def surfaces_of(stem, eomi):
    try:
        return conjugate(stem, eomi)
    except (TypeError, ValueError):
        return set()


WORDS = {s: {e: sorted(surfaces_of(s, e)) for e in EOMIS if surfaces_of(s, e)} for s in STEMS}


def candidates_of(l, r):
    try:
        return lemmas(l, r)
    except (TypeError, ValueError):   # not Korean
        return set()


class Eomi:
    def __init__(self, graph, stems, nouns, least_features):
        self.origin, self.graph, self.stems, self.nouns, self.least = graph, graph.copy(), stems, nouns, least_features
        self.surfaces = {l for stem in stems for l in stem_surfaces(stem)}

    def ls(self, r):
        return {l: d[r] for l, d in self.graph.lr.items() if r in d} if r else {}

    def predict(self, r, least):
        pos = neg = unk = features = 0
        for l, n in self.ls(r).items():
            longer = any(l + r[:i] in self.surfaces for i in range(1, len(r) + 1))
            if l in self.surfaces and not longer:
                features += 1
            if l + r in self.nouns or longer:
                continue
            if l in self.surfaces or l[0] in self.nouns and l[1:] in self.surfaces:
                pos += n
            elif any(l[i:] in self.surfaces for i in range(1, len(l))):
                unk += n
            else:
                neg += n
        score = (pos - neg) / (pos + neg) if pos + neg else 0
        return ((pos if score >= least else neg) + unk, score) if features >= self.least else (0, 0)

    def extract(self, a):
        end = a.get('condition')
        rs = {r for l in self.surfaces for r in self.graph.r_of(l) if not end or r.endswith(end)}
        scores = {}
        for r in sorted(rs, key=len, reverse=True):
            scores[r] = self.predict(r, a['min_eomi_score'])
            if scores[r][1] >= a['min_eomi_score']:
                for l, n in self.ls(r).items():
                    if l in self.surfaces or l[0] in self.nouns and l[1:] in self.surfaces:
                        self.graph.remove(l + r, n)
        self.graph = self.origin.copy()
        found = {}
        for r, (_, score) in scores.items():
            if score < a['min_eomi_score']:
                continue
            for l, n in self.ls(r).items():
                for stem, eomi in candidates_of(l, r):
                    if stem in self.stems:
                        total, weighted = found.get(eomi, (0, 0))
                        found[eomi] = total + n, weighted + n * score
        found = {e: (n, s / n) for e, (n, s) in found.items()}
        borders = {e for e, (n, s) in found.items() if close(s, a['min_eomi_score'])}
        return {e: s for e, s in found.items() if s[0] >= a['min_eomi_frequency'] and s[1] >= a['min_eomi_score']}, scores, borders


class Stem:
    JOSA = {'거나', '게', '게는', '게도', '고', '고도', '고만', '는', '다', '다가', '서는', '아', '은'}

    def __init__(self, graph, stems, eomis, config):
        self.graph, self.eomis, self.c = graph, eomis, config
        words = {l + r for l, d in graph.lr.items() for r in d}
        self.l, self.r = set(), set()
        for stem in stems:
            for eomi in eomis:
                for w in surfaces_of(stem, eomi):
                    if w in words and len(w) > len(stem):
                        self.l.add(w[:len(stem)])
                        self.r.add(w[len(stem):])

    def counts(self, l):
        pos, neg, unk = {}, 0, 0
        for r, n in self.graph.r_of(l).items():
            if r in self.JOSA:
                continue
            predicate = any(r[:i] in self.l and r[i:] in self.r for i in range(1, len(r)))
            longer = any(l[-i:] + r in self.r for i in range(1, len(l) + 1))
            if r and r in self.r:
                pos[r] = n, not (predicate or longer)
            elif not r or predicate or longer:
                neg += n
            else:
                unk += n
        return pos, neg, unk

    def predict(self, l, least, often):
        pos, neg, unk = self.counts(l)
        p = sum(n for n, _ in pos.values())
        score = (p - neg) / (p + neg) if p + neg else 0
        freq = p if score >= least else neg + unk
        if len({r[0] for r in self.graph.r_of(l) if r}) < self.c['min_num_of_unique_R_char']:
            return 0, 0
        proper = [n for n, sure in pos.values() if sure]
        if (entropy(proper) if len(proper) > 1 else 0) < self.c['min_entropy_of_R_char']:
            return 0, 0
        return (0 if freq < often else score), freq

    def extract(self, a, ignore=()):
        least, often = a['min_stem_score'], a['min_stem_frequency']
        found = {}
        for l, d in self.graph.lr.items():
            n = sum(c for r, c in d.items() if r and r in self.r)
            if l in self.l or l in ignore or l in self.r or not n or n < often or len(l) == 1 or l[-1] == '다':
                continue
            score, freq = self.predict(l, least, often)
            if score >= least and freq >= often:
                found[l] = score, freq
        removed = {l for l in found if any(l[:i] in self.l or l[:i] in found for i in range(1, len(l))
                                           if any(l[i:j] in self.r for j in range(i + 1, len(l) + 1)))
                   or any(l[:i] in found for i in range(2, len(l)))}
        found = {l: s for l, s in found.items() if l not in removed}
        stems = {}
        for l, (score, freq) in found.items():
            for r in self.graph.r_of(l):
                for stem, eomi in candidates_of(l, r):
                    if eomi in self.eomis:
                        n, s = stems.get(stem, (0, 0))
                        stems[stem] = n + freq, s + freq * score
        return {s: (n, w / n if n else 0) for s, (n, w) in stems.items()}, found, removed


class Predicator:
    def __init__(self, nouns, josas, adjectives, verbs, eomis, extract_eomi, extract_stem):
        self.josas, self.adjectives, self.verbs, self.flags = josas, adjectives, verbs, (extract_eomi, extract_stem)
        self.stems, self.eomis = adjectives | verbs, set(eomis)
        used = set()
        for stem in self.stems:
            for part in (stem[:-1], stem[:-2]):
                if part in nouns:
                    used.add(part)
                    break
        self.nouns = nouns - used
        self.counter = None

    def state(self):
        return set(self.stems), set(self.eomis), self.counter

    def train(self, counts, least, eargs, sargs):
        """-> state after it"""
        stems, eomis, _ = self.state()
        counts = {w: n for w, n in counts.items() if n >= least}
        g = graph_of_counts({w: n for w, n in counts.items() if len(w) > 1 and not any(w[:e] in self.nouns for e in range(2, len(w) + 1))}, 10, 9)
        if self.flags[0]:
            found, _, borders = Eomi(g, stems, self.nouns, eargs['min_num_of_features']).extract(eargs)
            if borders:
                raise Inapplicable()
            eomis |= set(found)
        if self.flags[1]:
            stems |= set(Stem(g, stems, eomis, sargs).extract(sargs)[0])
        return stems, eomis, counts

    def extract(self, candidates, least):
        if not candidates:
            candidates = {w: n for w, n in self.counter.items() if n > least and all('가' <= c <= '힣' for c in w)}
        lemmas, of = {}, {}
        for w, n in candidates.items():
            if any(w[:i] in self.nouns and w[i:] in self.josas for i in range(1, len(w))):
                continue
            found = {(s, e) for i in range(1, len(w) + 1) for s, e in candidates_of(w[:i], w[i:])
                     if s in self.stems and e in self.eomis and w in surfaces_of(s, e)}
            if found:
                lemmas[w] = found
                for _, e in found:
                    of.setdefault(e, []).append(w)
        self.covered = len(lemmas), sum(candidates[w] for w in lemmas)
        gone, lost = set(), set()
        for e, ws in of.items():
            two = [w for w in ws if len(w) == 2]
            if len(e) >= 3 or not two or sum(w in self.nouns for w in two) / len(two) < 0.5:
                continue
            if len(two) == len(ws):
                gone.add(e)
                lost |= {(w, e) for w in two}
            else:
                lost |= {(w, e) for w in ws if len(w) == 2 and w in self.nouns or len(w) == 3 and len(e) == 2}
        lemmas = {w: {(s, e) for s, e in found if (w, e) not in lost} for w, found in lemmas.items()}
        lemmas = {w: found for w, found in lemmas.items() if found}
        kind = {s: self.kind(s, lemmas) for s in {s for found in lemmas.values() for s, _ in found}}
        out = []
        for k in 'av':
            out.append({w: (candidates[w], {(s, e) for s, e in found if kind[s] == k}) for w, found in lemmas.items()})
            out[-1] = {w: x for w, x in out[-1].items() if x[1]}
        return out, self.eomis - gone

    def kind(self, stem, words):
        if stem in self.verbs:
            return 'v'
        if stem in self.adjectives:
            return 'a'
        if stem[-1] in ('같', '답', '롭', '이') or stem[-2:] in ('만하', '스럽', '시럽', '아니', '같', '답', '롭', '이'):
            return 'a'
        if stem[-2:] in ('거리', '당하', '당허', '시키'):
            return 'v'
        _, jung, jong = jamo(stem[-1])
        eomis = ['ㄴ다', 'ㄴ다고', '고있는'] if jong == ' ' else ['는다', '는다고', '고있는']
        eomis += ['어라' if jung in 'ㅓㅕ' else '아라', '자', 'ㄹ까', 'ㄹ까봐', '까', '까봐', '을까', '을까봐']
        return 'v' if len({w for e in eomis for w in conjugate(stem, e)} & set(words)) > 1 else 'a'


# ------------------------------------------------------------------ plan

TELLING = ['ㄴ다', 'ㄴ다고', '고있는', '는다', '자', 'ㄹ까', '까', '을까', '어라', '아라', '고', '지만', '는', '던']
DERIVED = ['자랑스럽', '반짝거리', '사랑하', '빛나', '꿈꾸', '귀엽', '아니', '학생이', '사과하', '꽃답', '똑같', '공부시키', '이용당하', '그럴만하', '향기롭', '자랑시럽', '이용당허']


def predicates(rng, stems, eomis):
    s = rng.choice(stems)
    e = rng.choice([e for e in eomis if e in WORDS[s]] or sorted(WORDS[s]))
    w = rng.choice(WORDS[s][e])
    # a common misspelling
    return misspelt(w) if rng.random() < 0.04 else w


def misspelt(w):
    return ''.join(chr(ord(c) - 1) if '가' <= c <= '힣' and jamo(c)[2] == 'ㅆ' else c for c in w)


def sentences(rng, v, stems, eomis, odd):
    words = []
    for _ in range(rng.choice([5, 40, 120, 250])):
        x = rng.random()
        if x < 0.75:
            words.append(predicates(rng, stems, eomis))
        elif x < 0.8:
            words.append(rng.choice(v['nouns']) + predicates(rng, stems, eomis))
        elif x < 0.85:
            words += [rng.choice(stems) + '다' + e for e in rng.sample(['던', '지만', '니까', '고', '며', '면서', '거나'], 4)]
        elif x < 0.93:
            words.append(gen.eojeol(rng, v))
        elif x < 0.95:
            # an ending which stands alone
            words += [rng.choice(['습니다', '고있는', '는다고', '았었다', '았다', '아라니깐', '지만', '면서', '니까'])] * rng.choice([1, 2, 4])
        elif odd:
            words.append(rng.choice(gen.ODD))
        words += words[-1:] * rng.choice([0, 0, 1, 3])
    if rng.random() < 0.5:
        # forms which tell verbs from adjectives
        for s in stems:
            if s in DERIVED and rng.random() < 0.5:
                for e in TELLING:
                    if rng.random() < 0.5:
                        words += [rng.choice(WORDS[s][e])] * rng.choice([1, 2, 3]) if e in WORDS[s] else []
    rng.shuffle(words)
    return [' '.join(words[i:i + 6]) for i in range(0, len(words), 6)] or ['먹고']


def gen_plan(rng, index, tier):
    kind = ['predicator', 'eomi', 'predicator', 'stem'][index % 4]
    v = gen.vocabulary(rng, korean_only=True)
    stems = rng.sample(sorted(WORDS), rng.randint(3, 14))
    if rng.random() < 0.4:
        stems = sorted(set(stems) | set(rng.sample(DERIVED, 3)))
    alle = sorted({e for d in WORDS.values() for e in d})
    eomis = rng.sample(alle, rng.randint(4, 20))
    corpora = [sentences(rng, v, stems, eomis, kind != 'predicator' or rng.random() < 0.3) for _ in range(3)]
    known = [s for s in stems if s not in DERIVED or rng.random() < 0.3]
    known = rng.sample(known, rng.randint(min(len(known), 2), len(known))) or stems[:1]
    adjectives = [s for s in known if rng.random() < 0.3]
    data = {'adjectives': adjectives, 'verbs': [s for s in known if s not in adjectives or rng.random() < 0.1],
            'eomis': rng.sample(eomis, rng.randint(2, len(eomis))) if rng.random() < 0.4 else eomis, 'josas': rng.sample(v['josas'], rng.randint(1, len(v['josas'])))}
    words = sorted({w for c in corpora for s in c for w in s.split()})
    two = [w for w in words if len(w) == 2]
    data['nouns'] = sorted(set(rng.sample(gen.NOUNS, rng.randint(0, 4)) + rng.sample(two, rng.randint(0, min(len(two), rng.choice([0, 2, 8, 30]))))
                               + rng.sample(v['nouns'], 1) + rng.sample(['사', '자', '꿈', '학생', '반짝'], rng.randint(0, 2))))
    config = {'verbose': rng.random() < 0.4}
    if kind == 'predicator':
        config.update(extract_eomi=rng.random() < 0.6, extract_stem=rng.random() < 0.5, ensure_normalized=rng.random() < 0.4)
    if kind == 'eomi':
        config['min_num_of_features'] = rng.choice([0, 1, 1, 2, 3])
    if kind == 'stem':
        config.update(min_num_of_unique_R_char=rng.choice([1, 2, 3]), min_entropy_of_R_char=rng.choice([0.0, 0.0, 0.5]), min_entropy_of_R=0.0)
    ops = []
    for _ in range(rng.randint(2, 7)):
        op = {'op': rng.choices(['train', 'extract', 'fail', 'train-extract'], [3, 4, 4, 1])[0] if kind == 'predicator' else rng.choice(['extract', 'fail']),
              'corpus': rng.randint(0, 2), 'form': rng.choice(['list', 'iter', 'file']), 'where': rng.random(), 'io': rng.choice(['openw', 'write', 'close'])}
        op['what'] = rng.choice(['train', 'train', 'extract']) if kind == 'predicator' else 'extract'
        op['how'] = rng.choice(['corpus', 'line', 'line', 'stdout'] + ['log'] * (kind == 'eomi'))
        op['input'] = rng.choice(['sents', 'sents', 'counter', 'graph'])
        op['least'] = rng.choice([1, 1, 2, 3])
        op['eargs'] = {'min_num_of_features': rng.choice([0, 1, 1, 2, 5]), 'min_eomi_score': rng.choice([0.3001, 0.3001, 0.6007, -0.2003] if kind == 'predicator' else [0.3001, 0.5, 0.0, 1.0]), 'min_eomi_frequency': rng.choice([1, 1, 3])}
        op['condition'] = rng.choice([None, None, '다', '고', '니다'])
        op['reset'] = rng.random() < 0.7
        op['sargs'] = {'min_num_of_unique_R_char': rng.choice([1, 1, 2, 3]), 'min_entropy_of_R_char': rng.choice([0.0, 0.0, 0.5]), 'min_entropy_of_R': 0.0,
                       'min_stem_score': rng.choice([0.3, 0.7, 0.7]), 'min_stem_frequency': rng.choice([1, 2, 2, 5])}
        op['frequency'] = rng.choice([0, 0, 1, 2])
        op['candidates'] = {w: rng.randint(1, 9) for w in rng.sample(words, min(len(words), 9)) if all('가' <= c <= '힣' for c in w)} if rng.random() < 0.3 else None
        op['cform'] = rng.choice(['dict', 'counter'])
        op['ignore'] = rng.sample(stems, 1) if rng.random() < 0.2 else None
        ops.append(op)
    omit = rng.random() < 0.3
    if omit:
        # some parameters have the documented values; they are not passed
        for args, where in [(config, 'init')] + [(op, 'op') for op in ops] + [(op[k], k) for op in ops for k in ('eargs', 'sargs')]:
            for k, value in DEFAULTS[where].items():
                if k in args and k not in RARE.get(kind, ()) and rng.random() < 0.4:
                    args[k] = value
    return gen.make_large({'omit': omit, 'kind': kind, 'corpora': corpora, 'data': data, 'config': config, 'ops': ops, 'log': kind == 'eomi' and rng.random() < 0.5,
            'rchunk': rng.choice([0, 0, 7])}, index, 101, (800, 2500), 2, ('train', 'extract') if kind == 'predicator' else ('extract',))


DEFAULTS = {'init': {'verbose': True, 'extract_eomi': False, 'extract_stem': False, 'ensure_normalized': False, 'min_num_of_features': 5,
                     'min_num_of_unique_R_char': 10, 'min_entropy_of_R_char': 0.5},
            'op': {'least': 2, 'frequency': 1, 'candidates': None, 'condition': None, 'reset': True, 'ignore': None},
            'eargs': {'min_num_of_features': 5, 'min_eomi_score': 0.3, 'min_eomi_frequency': 1},
            'sargs': {'min_num_of_unique_R_char': 10, 'min_entropy_of_R_char': 0.5, 'min_stem_score': 0.7, 'min_stem_frequency': 100}}
RARE = {'stem': ('min_num_of_unique_R_char', 'min_stem_frequency'), 'eomi': (), 'predicator': ('min_num_of_unique_R_char', 'min_stem_frequency')}
NAMES = {'least': 'min_eojeol_frequency', 'frequency': 'min_predicator_frequency', 'reset': 'reset_lrgraph', 'ignore': 'L_ignore'}


def given(plan, where, args):
    """keyword arguments without those which have the documented values, if the plan says so"""
    defaults = DEFAULTS[where]
    return {NAMES.get(k, k): v for k, v in args.items() if not (plan['omit'] and k in defaults and defaults[k] == v)}


# ------------------------------------------------------------------ run

def execute(plan, ctx):
    plan = gen.unfold(plan)
    if len(plan['corpora']) < 3 or any(not c or not all(s.strip() for s in c) for c in plan['corpora']):
        raise Inapplicable()
    os.makedirs('d')
    {'predicator': run_predicator, 'eomi': run_eomi, 'stem': run_stem}[plan['kind']](plan, ctx, os.path.abspath('d'))
    ctx.interesting({'kind': plan['kind'], 'operations': [o['op'] for o in plan['ops']]})


def run_eomi(plan, ctx, root):
    from soynlp.predicator import EomiExtractor
    from soynlp.utils import EojeolCounter
    data, config = plan['data'], plan['config']
    g = graph_of_counts(counter_of(plan['corpora'][0], 19), 10, 9)
    stems, nouns = set(data['adjectives']) | set(data['verbs']), set(data['nouns'])
    if not stems:
        raise Inapplicable()
    graph = EojeolCounter(plan['corpora'][0], max_length=19).to_lrgraph(10, 9)
    x = EomiExtractor(graph, stems, nouns, logpath=os.path.join(root, 'log') if plan['log'] else None, **given(plan, 'init', config))
    m = Eomi(g, set(stems), set(nouns), config['min_num_of_features'])
    known, words, last = None, sorted(g.lr), None
    ends = sorted({r for d in g.lr.values() for r in d if r})
    for n, op in enumerate(plan['ops']):
        when = op['op']
        args = {'min_eomi_score': op['eargs']['min_eomi_score'], 'min_eomi_frequency': op['eargs']['min_eomi_frequency'], 'condition': op['condition']}

        def extracted(got):
            nonlocal known
            want, scores, borders = m.extract(args)
            # whose mean score is that of the threshold, may be extracted or not
            expect_nouns(ctx, {e: tuple(s) for e, s in got.items() if e not in borders}, {e: s for e, s in want.items() if e not in borders}, when)
            known = got
            if plan['log']:
                with open(os.path.join(root, 'log_eomi_prediction_score.log'), encoding='utf-8') as f:
                    lines = f.read().split('\n')
                rows = {}
                for line in lines[1:-1]:
                    e, freq, score = line.split(' ')
                    rows[e] = float(freq), float(score)
                if lines[0] != 'eomi frequency score' or len(rows) != len(lines) - 2:
                    raise Violation('log', 'the log of predictions is malformed ({})'.format(when))
                expect_nouns(ctx, rows, scores, when + ', log')

        def do(what, c):
            return x.extract(**given(plan, 'op', {'reset': op['reset'], 'condition': op['condition']}),
                             **given(plan, 'eargs', {k: args[k] for k in ('min_eomi_score', 'min_eomi_frequency')}))
        if op['op'] == 'extract':
            extracted(do(None, None))
        elif op['how'] != 'corpus':
            when = 'extract failed: ' + op['how']
            outcome, got = disturbed(ctx, plan, op, do, lambda *a: None, root)
            if outcome == 'completed':
                extracted(got)
        expect_graph(ctx, x.lrgraph, m.graph, words, when)
        if x.is_trained != (known is not None):
            raise Violation('trained', 'an extractor is {} ({})'.format('not trained' if known is not None else 'trained', when))
        if known is not None:
            if {e: tuple(s) for e, s in x._eomis.items()} != {e: tuple(s) for e, s in known.items()}:
                raise Violation('eomis', 'an extractor does not keep the eomis of its last extraction ({})'.format(when))
            for r in ends[n::7]:
                got, want = tuple(x.predict(r, **given(plan, 'eargs', {'min_eomi_score': op['eargs']['min_eomi_score'], 'min_num_of_features': config['min_num_of_features']}))), m.predict(r, op['eargs']['min_eomi_score'])
                if not all(close(a, b) for a, b in zip(got, want)):
                    raise Violation('predict', 'the prediction of an eomi is not that of the corpus ({})'.format(when), eomi=r, got=list(got), expected=list(want))
        ctx.state(('eomi', when, last, op['condition'], plan['log'], op['eargs']['min_eomi_score'], known is None or not known))
        last = when
        ctx.log(n, when, sorted(known or [])[:20])
    if (set(stems), set(nouns)) != (m.stems, m.nouns):
        raise Violation('arguments', 'stems or nouns of the caller are changed')


def run_stem(plan, ctx, root):
    from soynlp.predicator import StemExtractor
    from soynlp.utils import EojeolCounter
    data, config = plan['data'], plan['config']
    g = graph_of_counts(counter_of(plan['corpora'][0], 19), 10, 9)
    stems, eomis = set(data['adjectives']) | set(data['verbs']), set(data['eomis'])
    graph = EojeolCounter(plan['corpora'][0], max_length=19).to_lrgraph(10, 9)
    x = StemExtractor(graph, set(stems), set(eomis), **given(plan, 'init', config))
    m = Stem(g, stems, eomis, config)
    last = None
    for n, op in enumerate(plan['ops']):
        when, a = op['op'], {k: op['sargs'][k] for k in ('min_stem_score', 'min_stem_frequency')}
        ignore = set(op['ignore'] or [])

        def do(what, c):
            return x.extract(**given(plan, 'op', {'ignore': ignore or None}), **given(plan, 'sargs', a))

        def extracted(got):
            want, found, removed = m.extract(a, ignore)
            expect_nouns(ctx, {s: tuple(v) for s, v in got.items()}, want, when)
            expect_nouns(ctx, {s: tuple(v) for s, v in x.stem_surfaces.items()}, found, when + ', surfaces')
            if x.removals != removed or x.stems != got:
                raise Violation('removals', 'removed surfaces are wrong ({})'.format(when), got=sorted(x.removals)[:5], expected=sorted(removed)[:5])
        if op['op'] == 'extract':
            extracted(do(None, None))
        elif op['how'] != 'corpus':
            when = 'extract failed: ' + op['how']
            outcome, got = disturbed(ctx, plan, op, do, lambda *a: None, root)
            if outcome == 'completed':
                extracted(got)
        for l in sorted(g.lr)[n::9]:
            got, want = tuple(x.predict(l, a['min_stem_score'], a['min_stem_frequency'])), m.predict(l, a['min_stem_score'], a['min_stem_frequency'])
            if not all(close(p, q) for p, q in zip(got, want)):
                raise Violation('predict', 'the prediction of a stem is not that of the corpus ({})'.format(when), stem=l, got=list(got), expected=list(want))
        ctx.state(('stem', when, last, bool(ignore), config['min_num_of_unique_R_char'], a['min_stem_frequency']))
        last = when
        ctx.log(n, when, sorted(m.l)[:20])


def run_predicator(plan, ctx, root):
    from soynlp.predicator import PredicatorExtractor
    from soynlp.utils import EojeolCounter
    data, config = plan['data'], plan['config']
    sets = {k: set(data[k]) for k in ('nouns', 'josas', 'adjectives', 'verbs', 'eomis')}
    if not sets['josas'] or not sets['adjectives'] | sets['verbs']:
        raise Inapplicable()
    dictionaries = {k: set(x) for k, x in sets.items()}
    x = PredicatorExtractor(dictionaries['nouns'], josas=dictionaries['josas'], adjectives=dictionaries['adjectives'], verbs=dictionaries['verbs'], eomis=dictionaries['eomis'], **given(plan, 'init', config))
    m = Predicator(**{k: set(s) for k, s in sets.items()}, extract_eomi=config['extract_eomi'], extract_stem=config['extract_stem'])
    last = None
    for n, op in enumerate(plan['ops']):
        when, sents = op['op'], plan['corpora'][op['corpus']]
        cpath = os.path.join(root, 'corpus{}'.format(n))
        source = op['input'] if op['op'] == 'train' else 'sents'

        def corpus(form=None):
            if source == 'sents':
                return corpus_of(form or op['form'], sents, cpath)
            counter = EojeolCounter(sents, max_length=19)
            return counter if source == 'counter' else counter.to_lrgraph(10, 9)

        def counts():
            if source == 'sents' and not config['ensure_normalized']:
                return counter_of([normalized(s) for s in sents], 15)
            return counter_of(sents, 15 if source == 'sents' else 19)

        def candidates():
            c = op['candidates']
            if not c or op['cform'] == 'dict':
                return c
            counter = EojeolCounter()
            counter._counter = dict(c)
            counter._set_count_sum()
            return counter

        targs = dict(given(plan, 'eargs', op['eargs']), **given(plan, 'sargs', op['sargs']), **given(plan, 'op', {'least': op['least']}))

        def do(what, c):
            if what == 'train':
                x.train(c, **targs)
            else:
                return x.extract(**given(plan, 'op', {'candidates': candidates(), 'frequency': op['frequency']}))

        def state():
            return set(x._stems), set(x._eomis_), None if x.eojeol_counter is None else dict(x.eojeol_counter._counter)

        def after():
            return m.train(counts(), op['least'], op['eargs'], op['sargs'])

        def extracted(got):
            ctx.count('evaluations')
            want, left = m.extract(op['candidates'], op['frequency'])
            got = [{w: (p.frequency, set(p.lemma)) for w, p in d.items()} for d in got]
            for d, e, name in zip(got, want, ('adjective', 'verb')):
                for w in sorted(set(d) | set(e)):
                    if d.get(w) != e.get(w):
                        raise Violation('predicators', 'frequency or lemmas of a word as {} are not those of the corpus and the dictionaries ({})'.format(name, when),
                                        word=w, got=w in d and [d[w][0], sorted(d[w][1])], expected=w in e and [e[w][0], sorted(e[w][1])])
            if x._eomis != left:
                raise Violation('eomis', 'eomis after an extraction are wrong ({})'.format(when), wrong=sorted(x._eomis ^ left)[:5])
            if (x._num_of_covered_eojeols, x._count_of_covered_eojeols) != m.covered:
                raise Violation('covered', 'number of covered eojeols is wrong ({})'.format(when), got=[x._num_of_covered_eojeols, x._count_of_covered_eojeols], expected=list(m.covered))

        if op['op'] in ('train', 'train-extract'):
            c = corpus()
            simio.arm([root], rchunk=plan['rchunk'])
            if op['op'] == 'train':
                do('train', c)
            else:
                got = x.train_extract(c, **given(plan, 'op', {'candidates': candidates(), 'frequency': op['frequency']}), **targs)
            simio.disarm()
            m.stems, m.eomis, m.counter = after()
            if op['op'] == 'train-extract':
                extracted(got)
        elif m.counter is None and (op['op'] != 'fail' or op['what'] != 'train'):
            continue
        elif op['op'] == 'extract':
            extracted(do('extract', None))
        else:
            when = '{} failed: {}'.format(op['what'], op['how'])
            if op['how'] == 'corpus' and op['what'] != 'train':
                continue
            outcome, got = disturbed(ctx, plan, op, do, corpus, root)
            if op['what'] == 'train' and (outcome == 'completed' or outcome == 'interrupted' and state() == after()):
                m.stems, m.eomis, m.counter = after()
            elif outcome == 'completed':
                extracted(got)
        ctx.count('evaluations')
        for have, want, name in zip(state(), m.state(), ('stems', 'eomis', 'eojeols')):
            if have != want:
                wrong = sorted(set(have or {}) ^ set(want or {}) or {w for w in have if have[w] != want[w]})[:5]
                raise Violation(name, '{} of an extractor are not those of its dictionaries and corpora ({})'.format(name, when), wrong=wrong)
        if x.is_trained != (m.counter is not None) or m.counter is not None and (x._num_of_eojeols, x._count_of_eojeols) != (len(m.counter), sum(m.counter.values())):
            raise Violation('eojeols', 'numbers of eojeols are wrong ({})'.format(when))
        ctx.state(('predicator', when, last, source, config['extract_eomi'], config['extract_stem'], bool(op['candidates']), m.counter is None))
        last = when
        ctx.log(n, when, sorted(m.stems), sorted(m.eomis))
    if dictionaries != sets:
        raise Violation('arguments', 'dictionaries of the caller are changed')
