"""C18: part of speech extraction accounts for every eojeol of the corpus, exactly as the nouns, predicates, josas and adverbs which the
corpus and the dictionaries give, through every history of trainings, extractions and interruptions. The oracle is a model of its own."""
import os

from sim import gen, simio
from sim.kernel import Inapplicable, Violation

from . import c16, c17
from .c16 import V2, counter_of, disturbed, resource
from .c17 import Predicator, WORDS, candidates_of
from .korean import jamo
from .maxscore import the_max
from .trainables import corpus_of


def stems_of(name, least=2, where='lemmatizer/dictionary/default/Stem'):
    return {line.split()[0] for line in resource(name, where) if int(line.split()[1]) >= least}


class Model:
    def __init__(self, chat, extract_eomi):
        self.chat, self.extract_eomi, self.trained = chat, extract_eomi, None

    def train(self, sents, a):
        """-> what was trained"""
        v2 = V2({'max_left_length': 10, 'max_right_length': 9, 'min_num_of_features': a['min_num_of_noun_features'],
                 'max_frequency_when_noun_is_eojeol': a['max_frequency_when_noun_is_eojeol'], 'extract_compound': False, 'postprocessing': None},
                *(resource('noun_predictor_ver2_' + side) for side in ('pos', 'neg')))
        v2.train(counter_of(sents, 19, a['min_eojeol_frequency']))
        nouns = v2.extract({'min_noun_score': a['min_noun_score'], 'min_noun_frequency': a['min_noun_frequency'], 'reset_lrgraph': True})[0]
        p = Predicator(set(nouns), v2.pos | v2.common, stems_of('Adjective.txt'), stems_of('Verb.txt'),
                       stems_of('Eomi.txt', 20, 'lemmatizer/dictionary/default/Eomi'), self.extract_eomi, False)
        p.stems, p.eomis, p.counter = p.train(counter_of(sents, 15), a['min_eojeol_frequency'], {
            'min_num_of_features': a['min_num_of_eomi_features'], 'min_eomi_score': a['min_eomi_score'], 'min_eomi_frequency': a['min_eomi_frequency']}, None)
        (adjectives, verbs), eomis = p.extract(None, a['min_predicator_frequency'])
        eojeols = {l + r: n for l, d in v2.origin.lr.items() for r, n in d.items()}
        return {'eojeols': eojeols, 'nouns': nouns, 'base': (adjectives, verbs), 'stems': (p.adjectives, p.verbs), 'eomis': eomis, 'josas': p.josas}

    def extract(self):
        t = self.trained
        self.bases, self.stems = [dict(b) for b in t['base']], [set(s) for s in t['stems']]
        self.eomis, self.josas = set(t['eomis']), t['josas']
        if self.chat:
            self.josas = resource('josa_chat.txt', 'postagger/dictionary/default/Josa')
        adverbs = {line.split()[0] for line in resource('adverb.txt', 'postagger/dictionary/default/Adverb')}
        adverbs |= {s[:-1] + '히' for stems in t['stems'] for s in stems if s[-1] == '하'}
        left = dict(t['eojeols'])

        def seen(words):
            return {w: n for w, n in left.items() if w in words}

        def without(*words):
            return {w: n for w, n in left.items() if not any(w in x for x in words)}

        def first(w, ls, rs):
            return next(((w[:i], w[i:]) for i in range(2, len(w)) if w[:i] in ls and w[i:] in rs), None)

        def count(counter, w, n):
            counter[w] = counter.get(w, 0) + n
        nouns, preds, adverbs, josas = seen(t['nouns']), [seen(b) for b in self.bases], seen(adverbs), {}
        left = without(nouns, *preds, adverbs)
        # noun + josa or predicator
        done = set()
        for rs, counter in [(self.josas, josas)] + [(set(p), p) for p in preds]:
            for w, n in left.items():
                lr = first(w, nouns, rs)
                if lr:
                    count(nouns, lr[0], n)
                    count(counter, lr[1], n)
                    done.add(w)
        left = without(done)
        # predicator + predicator
        before, wrong_eomis = set(self.bases[0]) | set(self.bases[1]), set()
        for base, stems, counter in zip(self.bases, self.stems, preds):
            found = {}
            for w, n in left.items():
                lr = first(w, before, base)
                lemmas = {(lr[0] + s, e) for s, e in base[lr[1]][1]} if lr else set()
                lemmas = {(s, e) for s, e in lemmas if self.fit(s, e) and s not in self.stems[0] | self.stems[1]}
                if self.chat and lemmas and w in base:
                    known = max(len(s) for s, _ in base[w][1])
                    lemmas = {(s, e) for s, e in lemmas if len(s) > known}
                if lemmas:
                    found[w] = n, lemmas
            if self.chat:
                eomis = {}
                for n, lemmas in found.values():
                    for s, e in lemmas:
                        count(eomis.setdefault(s, {}), e, n)
                wrong = {s for s, d in eomis.items() if sum(n for e, n in d.items() if e and 'ㄱ' <= e[0] <= 'ㅎ') / sum(d.values()) >= 0.9}
                found = {w: (n, {(s, e) for s, e in lemmas if s not in wrong}) for w, (n, lemmas) in found.items()}
                found = {w: x for w, x in found.items() if x[1]}
            stems |= {s for _, lemmas in found.values() for s, _ in lemmas}
            base.update(found)
            if self.chat:
                balance = {}
                for w, (_, lemmas) in base.items():
                    for _, e in lemmas:
                        count(balance, e, 1 if w in found else -1)
                wrong_eomis |= {e for e, n in balance.items() if n > 0}
            for w in found:
                count(counter, w, left[w])
        self.eomis -= wrong_eomis
        left = without(*preds)
        # more conjugations of the stems
        new = []
        for base, stems, counter in zip(self.bases, self.stems, preds):
            for w, n in left.items():
                lemmas = self.lemmas(w, stems)
                if lemmas:
                    base[w] = n, lemmas
                    count(counter, w, n)
                    new.append(w)
        left = without(new)
        # one syllable + anything
        done = set()
        for counter in preds + [josas]:
            for w, n in left.items():
                if w[1:] in counter:
                    count(nouns, w[0], n)
                    count(counter, w[1:], n)
                    done.add(w)
        left = {w: n for w, n in without(done).items() if w not in self.josas and w not in self.eomis and len(w) > 1}
        if not self.chat:
            scores = {w: 1 for w in nouns if len(w) > 1}
            ends, done = set(nouns) | set(preds[0]) | set(preds[1]) | set(josas), {}
            for w in left:
                tokens = the_max(scores, 0.0, 10, w)
                if all(x[3] > 0 for x in tokens[:-1]):
                    if len(tokens) >= 3 and tokens[-1][0] in ends:
                        done[w] = ''.join(x[0] for x in tokens[:-1])
                    elif tokens[-1][3] > 0:
                        done[w] = w
            for w, noun in done.items():
                count(nouns, noun, left[w])
            left = without(done)
        confused = {w: n for w, n in nouns.items() if any(w in x for x in preds + [adverbs])}
        if self.chat:
            confused.update((w, n) for w, n in nouns.items() if len(w) > 2 and any(w[i:] in x for x in preds + [josas] for i in range(1, len(w))))
        out = {'Noun': {w: n for w, n in nouns.items() if w not in confused}, 'ConfusedNouns': confused, 'Adverb': adverbs, 'Irrecognizable': left,
               'Eomi': self.eomis, 'Josa': self.josas, 'AdjectiveStem': self.stems[0], 'VerbStem': self.stems[1]}
        for name, counter, base, stems in zip(('Adjective', 'Verb'), preds, self.bases, self.stems):
            out[name] = {w: (n, base[w][1]) for w, n in counter.items()}
        return out

    def fit(self, stem, eomi):
        if self.chat and stem[-1] in '업닿땋':
            return False
        _, jung, jong = jamo(stem[-1])
        cho, vowel, _ = jamo(eomi[0])
        return not (jong in 'ㄹㅂ' and cho in 'ㄴㄹㅁㅂ' or jung == 'ㅡ' and jong == ' ' and cho == 'ㅇ' and vowel in 'ㅓㅏ')

    def lemmas(self, w, stems):
        for i in range(len(w), 0, -1):
            found = {(s, e) for s, e in candidates_of(w[:i], w[i:]) if s in stems and e in self.eomis}
            if found:
                return found
        return set()


# ------------------------------------------------------------------ plan

def sentences(rng, v, stems, eomis):
    josas = rng.sample(['은', '는', '이', '가', '을', '를', '에', '에서', '의', '도', '로', '과', '와', '만', '까지', '부터', '에게'], 6)
    nouns = rng.sample(v['nouns'], min(len(v['nouns']), rng.choice([2, 4]))) + ([pred(rng, stems, eomis)] if rng.random() < 0.5 else [])
    if rng.random() < 0.5:
        nouns.append(rng.choice(['집까지', '사과도', '길에서', '너무', '사랑히', '빨리', '학생만', '국회의원도']))
    few = [pred(rng, stems, eomis) for _ in range(rng.choice([3, 8, 20]))]
    few += rng.sample(['업고', '업다', '닿고', '닿아', '땋고', '땋은', '들면', '쓰면', '써서', '크고'], rng.choice([0, 2, 4]))
    syllable = rng.choice('집나너저길손눈')
    compounds = [rng.choice(few) + rng.choice(few) for _ in range(rng.choice([0, 1, 3, 6]))]
    words = list(compounds)
    for _ in range(rng.choice([10, 60, 120, 200])):
        x = rng.random()
        if x < 0.3:
            words.append(rng.choice(few) if rng.random() < 0.7 else pred(rng, stems, eomis))
        elif x < 0.5:
            words.append(rng.choice(nouns) + rng.choice(josas))
        elif x < 0.6:
            words.append(rng.choice(nouns) + rng.choice(few))
        elif x < 0.75:
            words.append(rng.choice(few) + rng.choice(few))
            if compounds and rng.random() < 0.5:      # of what is found itself
                words[-1] = rng.choice([rng.choice(compounds) + rng.choice(few), rng.choice(few) + rng.choice(compounds),
                                        rng.choice(nouns) + rng.choice(compounds), rng.choice(syllable) + rng.choice(compounds)])
        elif x < 0.78:
            words.append(rng.choice(few) + rng.choice(['업고', '업다', '닿고', '들다', '들면', '쁘어', '쁘고']))
        elif x < 0.84:
            words.append(syllable + rng.choice([rng.choice(josas), rng.choice(few)]))
        elif x < 0.9:
            words.append(''.join(rng.choice(nouns) for _ in range(rng.randint(2, 3))) + rng.choice(['', rng.choice(josas), rng.choice(few)]))
        elif x < 0.93:
            words.append(rng.choice(['갸웃히', '거듭히', '글썽히', '하', '감감히', '곤히', '가득히', rng.choice(gen.ADVERBS)]))
        else:
            words.append(gen.eojeol(rng, v))
        words += words[-1:] * rng.choice([0, 0, 1, 1, 4])
    rng.shuffle(words)
    return [' '.join(words[i:i + 6]) for i in range(0, len(words), 6)]


def pred(rng, stems, eomis):
    return c17.predicates(rng, stems, eomis)


def gen_plan(rng, index, tier):
    v = gen.vocabulary(rng, korean_only=True)
    stems = rng.sample(sorted(WORDS), rng.randint(3, 12))
    alle = sorted({e for d in WORDS.values() for e in d})
    eomis = rng.sample(alle, rng.randint(4, 15))
    corpora = [sentences(rng, v, stems, eomis) for _ in range(2)]
    ops = []
    for _ in range(rng.randint(2, 5)):
        op = {'op': rng.choices(['train', 'extract', 'fail', 'train-extract'], [3, 3, 3, 2])[0], 'corpus': rng.randint(0, 1),
              'form': rng.choice(['list', 'iter', 'file']), 'where': rng.random(), 'io': rng.choice(['openr', 'read'])}
        op['what'] = rng.choice(['train', 'extract', 'extract'])
        op['how'] = rng.choice(['corpus', 'line', 'line', 'stdout'])
        op['args'] = {'min_num_of_noun_features': rng.choice([0, 1, 1]), 'max_frequency_when_noun_is_eojeol': rng.choice([1, 30]),
                      'min_noun_score': rng.choice([0.3001, 0.3001, 0.6007]), 'min_noun_frequency': rng.choice([1, 1, 2]), 'min_eojeol_frequency': rng.choice([1, 1, 1, 2]),
                      'min_predicator_frequency': rng.choice([0, 0, 1]), 'min_num_of_eomi_features': rng.choice([1, 2, 5]),
                      'min_eomi_score': rng.choice([0.3001, 0.6007]), 'min_eomi_frequency': rng.choice([1, 2])}
        ops.append(op)
    config = {'verbose': rng.random() < 0.3, 'extract_eomi': rng.random() < 0.4, 'ensure_normalized': rng.random() < 0.7}
    omit = rng.random() < 0.3
    if omit:
        # some parameters have the documented values; they are not passed
        for args in [config] + [op['args'] for op in ops]:
            for k, value in DEFAULTS.items():
                if k in args and rng.random() < 0.4:
                    args[k] = value
    return gen.make_large({'kind': ['news', 'chat'][index % 2], 'corpora': corpora, 'ops': ops, 'rchunk': rng.choice([0, 0, 50]), 'config': config, 'omit': omit}, index, 67, (800, 2000), 2, ('train', 'extract'))


DEFAULTS = {'verbose': True, 'ensure_normalized': True, 'extract_eomi': True, 'min_num_of_noun_features': 1, 'max_frequency_when_noun_is_eojeol': 30,
            'min_noun_score': 0.3, 'min_noun_frequency': 1, 'min_eojeol_frequency': 1, 'min_predicator_frequency': 1, 'min_num_of_eomi_features': 5,
            'min_eomi_score': 0.3, 'min_eomi_frequency': 1}


def given(plan, args):
    """without those which have the documented values, if the plan says so"""
    return {k: v for k, v in args.items() if not (plan['omit'] and DEFAULTS[k] == v)}


# ------------------------------------------------------------------ run

def execute(plan, ctx):
    plan = gen.unfold(plan)
    from soynlp.pos import ChatPOSExtractor, NewsPOSExtractor
    if len(plan['corpora']) < 2 or any(not c or not all(s.strip() for s in c) for c in plan['corpora']):
        raise Inapplicable()
    os.makedirs('d')
    root = os.path.abspath('d')
    chat = plan['kind'] == 'chat'
    x = (ChatPOSExtractor if chat else NewsPOSExtractor)(**given(plan, plan['config']))
    m = Model(chat, plan['config']['extract_eomi'])
    last = None
    for n, op in enumerate(plan['ops']):
        when, sents = op['op'], plan['corpora'][op['corpus']]
        cpath = os.path.join(root, 'corpus{}'.format(n))

        def corpus(form=None):
            return corpus_of(form or op['form'], sents, cpath)

        def do(what, c):
            if what == 'train':
                x.train(c, **given(plan, op['args']))
            else:
                return x.extract()

        def trained():
            m.trained = m.train(sents, op['args'])

        def extracted(got):
            ctx.count('evaluations')
            want = m.extract()
            if set(got) != set(want):
                raise Violation('tags', 'tags of an extraction are wrong ({})'.format(when), tags=sorted(got))
            for tag in sorted(want):
                have, expected = got[tag], want[tag]
                if tag in ('Adjective', 'Verb'):
                    have = {w: (p.frequency, set(p.lemma or [])) for w, p in have.items()}
                for w in sorted(set(have) | set(expected)):
                    if (w in have) != (w in expected) or isinstance(expected, dict) and have[w] != expected[w]:
                        raise Violation('words', '{}: a word or its frequency is not that of the corpus ({})'.format(tag, when), word=w,
                                        got=show(have, w), expected=show(expected, w))

        def same(t):
            """the trained state is t"""
            return 'eojeols' in vars(x) and x.eojeols == t['eojeols'] and set(x.nouns) == set(t['nouns']) and x._trained[4] == t['eomis'] and \
                [{w: (p.frequency, set(p.lemma)) for w, p in b.items()} for b in x._trained[:2]] == list(t['base'])

        if op['op'] in ('train', 'train-extract'):
            c = corpus()
            simio.arm([root], rchunk=plan['rchunk'])
            got = do('train', c) if op['op'] == 'train' else x.train_extract(c, **given(plan, op['args']))
            simio.disarm()
            trained()
            if op['op'] == 'train-extract':
                extracted(got)
        elif m.trained is None and (op['op'] != 'fail' or op['what'] != 'train'):
            continue
        elif op['op'] == 'extract':
            extracted(do('extract', None))
        else:
            when = '{} failed: {}'.format(op['what'], op['how'])
            if op['how'] == 'corpus' and op['what'] != 'train':
                continue
            outcome, got = disturbed(ctx, plan, op, do, corpus, root)
            if op['what'] == 'train':
                new = m.train(sents, op['args'])
                if outcome == 'completed' or outcome == 'interrupted' and same(new):
                    m.trained = new
            elif outcome == 'completed':
                extracted(got)
        if m.trained is None:
            if 'eojeols' in vars(x):
                raise Violation('trained', 'an extractor has eojeols, though no training succeeded ({})'.format(when))
        elif not same(m.trained):
            raise Violation('trained', 'what an extractor has trained is not that of the corpus ({})'.format(when))
        ctx.state((plan['kind'], when, last, plan['config']['extract_eomi'], op['args']['min_predicator_frequency'], op['args']['min_eojeol_frequency'], m.trained is None))
        last = when
        ctx.log(n, when, sorted(m.trained['nouns'])[:20] if m.trained else None)
    if m.trained is not None:
        when = 'in the end'
        extracted(do('extract', None))
    ctx.interesting({'kind': plan['kind'], 'operations': [o['op'] for o in plan['ops']]})


def show(d, w):
    if w not in d:
        return 'missing'
    return [d[w][0], sorted(d[w][1])] if isinstance(d, dict) and isinstance(d[w], tuple) else d[w] if isinstance(d, dict) else 'present'
