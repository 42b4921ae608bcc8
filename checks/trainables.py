"""Things of soynlp which are trained with a corpus.

Trainable:
    gen(rng)            -> JSON: parameters of the object and of extraction
    make(data)          -> untrained object
    gen_targs(rng)      -> JSON: parameters of one training
    train(obj, corpus, targs, data)
    view(obj, data)     -> canonical form of what a user gets from the model
    extract(obj, xargs) -> canonical result of one extraction (C06, C10)
    gen_xargs(rng)
"""
import os

from sim import gen
from sim.canon import canon

TRUTHY = [True, False]


class Flaky:
    """A callback which raises once its fuse is burnt"""

    def __init__(self, fn):
        self.fn, self.fuse, self.exc = fn, None, None

    def __call__(self, x):
        if self.fuse is not None:
            self.fuse -= 1
            if self.fuse < 0:
                exc, self.fuse = self.exc, None
                raise exc
        return self.fn(x)


def tokenizer_of(kind):
    if kind == 'chars':
        return lambda s: [c for c in s if c != ' ']
    if kind == 'prefix':
        return lambda s: [w[:2] for w in s.split()]
    if kind == 'letters':        # terms may be or contain spaces
        return list
    if kind == 'ngrams':
        return lambda s: [s[i:i + 2] for i in range(len(s) - 1)]
    return lambda s: s.split()


class Trainable:
    name = None
    kinds = ('list', 'list', 'file', 'iter')
    korean = False
    cumulative = False       # trainings add up
    callback = False
    logs = False             # writes log files while extracting

    def gen_corpus(self, rng, lo=2, hi=25):
        return gen.corpus(rng, lo, hi, korean_only=self.korean)

    def gen_targs(self, rng):
        return {}

    def gen_xargs(self, rng):
        return {}

    def has_extract(self):
        return type(self).extract is not Trainable.extract

    def extract(self, obj, xargs):
        return None

    def view(self, obj, data):
        return self.extract(obj, {})


class WordT(Trainable):
    name = 'WordExtractor'
    cumulative = True

    def gen(self, rng):
        return {'kw': {'max_left_length': rng.choice([3, 10]), 'max_right_length': rng.choice([2, 6]),
                       'min_frequency': rng.choice([1, 1, 2, 3]), 'verbose_points': rng.choice([-1, 1, 3, 100000]),
                       'min_cohesion_forward': rng.choice([0.0, 0.05, 0.3]), 'remove_subwords': rng.random() < 0.5,
                       'min_left_branching_entropy': rng.choice([0.0, 0.1]),
                       'min_right_accessor_variety': rng.choice([0, 2])}}

    def make(self, data):
        from soynlp.word import WordExtractor
        return WordExtractor(**data['kw'])

    def gen_targs(self, rng):
        return {'num_for_pruning': rng.choice([0, 0, 1, 3, 7]), 'cumulate': rng.random() < 0.7}

    def train(self, obj, corpus, targs, data):
        obj.train(corpus, **targs)

    def extract(self, obj, xargs):
        x = obj.extract()
        return canon({w: tuple(s) for w, s in x.items()}, 9)

    def view(self, obj, data):
        scores = obj.word_scores()
        words = sorted(scores)
        return canon([dict(obj.L), dict(obj.R), {w: tuple(s) for w, s in scores.items()}, sorted(obj.extract()),
                      [obj.branching_entropy(w) for w in words[:6]], [obj.accessor_variety(w) for w in words[:6]]], 9)


class BigramT(Trainable):
    name = 'Bigram'
    callback = True

    def gen(self, rng):
        return {'kw': {'min_frequency': rng.choice([1, 1, 2]), 'verbose': rng.random() < 0.6,
                       'score': rng.choice(['frequency', 'pmi', 'mikolov']),
                       'filtering_checkpoint': rng.choice([0, 1, 4, 100000])}, 'tok': rng.choice(['words', 'chars', 'prefix', 'letters', 'ngrams'])}

    def make(self, data):
        from soynlp.word._phrase import Bigram
        flaky = Flaky(tokenizer_of(data['tok']))
        b = Bigram(tokenizer=flaky, **data['kw'])
        b._flaky = flaky
        return b

    def train(self, obj, corpus, targs, data):
        obj.train(corpus)

    def gen_xargs(self, rng):
        return {'threshold': rng.choice([0, 1, 2])}

    def extract(self, obj, xargs):
        return canon({k: tuple(v) for k, v in obj.extract(**xargs).items()}, 12)

    def view(self, obj, data):
        return canon([bool(obj.is_trained), self.extract(obj, {'threshold': -100})])


class V1T(Trainable):
    name = 'LRNounExtractor'

    def gen(self, rng):
        return {'kw': {'max_left_length': rng.choice([4, 10]), 'max_right_length': rng.choice([3, 7]),
                       'min_num_of_features': rng.choice([0, 1, 1]), 'ensure_normalized': rng.random() < 0.5,
                       'verbose': rng.random() < 0.6}}

    def make(self, data):
        from soynlp.noun import LRNounExtractor
        return LRNounExtractor(**data['kw'])

    def gen_targs(self, rng):
        return {'min_noun_frequency': rng.choice([1, 1, 2, 3])}

    def train(self, obj, corpus, targs, data):
        obj.train(corpus, **targs)

    def gen_xargs(self, rng):
        return {'min_noun_score': rng.choice([0.0, 0.1, 0.5]), 'min_noun_frequency': rng.choice([1, 2])}

    def extract(self, obj, xargs):
        return canon({k: tuple(v) for k, v in obj.extract(**xargs).items()}, 9)

    def view(self, obj, data):
        words = sorted(obj.words)
        return canon([words, self.extract(obj, {'min_noun_score': 0.1, 'min_noun_frequency': 1}),
                      [tuple(obj.predict(w)) for w in words]], 9)


class V2T(Trainable):
    name = 'LRNounExtractor_v2'
    kinds = ('list', 'list', 'file', 'iter', 'counter', 'lrgraph')
    logs = True

    def gen(self, rng):
        return {'kw': {'max_left_length': rng.choice([4, 10]), 'max_right_length': rng.choice([3, 9]),
                       'min_num_of_features': rng.choice([0, 1, 1, 2]), 'verbose': rng.random() < 0.6,
                       'max_frequency_when_noun_is_eojeol': rng.choice([1, 30]),
                       'eojeol_counter_filtering_checkpoint': rng.choice([2, 500000]),
                       'extract_compound': rng.random() < 0.8, 'ensure_normalized': rng.random() < 0.3,
                       'postprocessing': rng.choice([None, None, ['detaching_features'], 'ignore_features'])},
                'log': rng.random() < 0.4}

    def make(self, data):
        from soynlp.noun import LRNounExtractor_v2
        kw = dict(data['kw'])
        if data.get('log'):
            kw['logpath'] = os.path.abspath('v2log')
        return LRNounExtractor_v2(**kw)

    def gen_targs(self, rng):
        return {'min_eojeol_frequency': rng.choice([1, 1, 2])}

    def train(self, obj, corpus, targs, data):
        obj.train(corpus, **targs)

    def gen_xargs(self, rng):
        return {'min_noun_score': rng.choice([0.1, 0.3, 0.6]), 'min_noun_frequency': rng.choice([1, 1, 2])}

    def extract(self, obj, xargs):
        return canon({k: tuple(v) for k, v in obj.extract(**xargs).items()}, 9)

    def view(self, obj, data):
        words = sorted(w for w, _ in obj.lrgraph.to_EojeolCounter().items())
        ls = sorted({w[:i] for w in words for i in range(2, len(w) + 1)})
        out = [words, [[l, tuple(obj.predict(l))] for l in ls]]
        nouns = obj.extract(0.1, 1)
        out += [{k: tuple(v) for k, v in nouns.items()}]
        if obj.extract_compound:
            out += [[obj.decompose_compound(w) for w in words]]
        return canon(out, 9)


class NewsT(Trainable):
    name = 'NewsNounExtractor'

    def gen(self, rng):
        return {'kw': {'max_left_length': rng.choice([4, 10]), 'max_right_length': rng.choice([3, 7]),
                       'verbose': rng.random() < 0.6, 'base_noun_dictionary': rng.sample(gen.NOUNS, rng.randint(0, 3))}}

    def make(self, data):
        from soynlp.noun import NewsNounExtractor
        return NewsNounExtractor(**data['kw'])

    def train(self, obj, corpus, targs, data):
        obj.train(corpus)

    def gen_xargs(self, rng):
        return {'min_noun_score': rng.choice([0.1, 0.4]), 'min_frequency': rng.choice([1, 1, 2]),
                'min_feature_proportion': rng.choice([0.0, 0.6])}

    def extract(self, obj, xargs):
        xargs = dict({'min_frequency': 1, 'min_noun_score': 0.1, 'min_feature_proportion': 0.0}, **xargs)
        return canon({k: tuple(v) if isinstance(v, tuple) else v for k, v in obj.extract(**xargs).items()}, 9)

    def view(self, obj, data):
        words = sorted(obj.lcount)
        return canon([words, [tuple(obj.predict(w)) for w in words], self.extract(obj, {})], 9)


STEMS = {'adjectives': ['예쁘', '좋', '더럽', '파랗', '아름답'],
         'verbs': ['먹', '가', '하', '구르', '깨닫', '만들', '들어가', '시작하', '이르', '덕질하', '좋아지', '더러워지']}
EOMIS = ['다', '고', '는다', '으니까', 'ㄴ다', '니까', '았다', '었다', '하고', '는', 'ㅂ니다', '습니다', 'ㄴ', '아서', '어서', '어', '었습니다',
         '러', '았습니다', '었고', '며', '자', '던']


class PredicatorT(Trainable):
    name = 'PredicatorExtractor'
    kinds = ('list', 'list', 'file', 'iter', 'counter', 'lrgraph')
    korean = True

    def gen(self, rng):
        return {'nouns': rng.sample(gen.NOUNS, rng.randint(0, 12)), 'default': rng.random() < 0.3,
                'eomis': rng.sample(EOMIS, rng.randint(6, len(EOMIS))),
                'kw': {'extract_eomi': rng.random() < 0.4, 'verbose': rng.random() < 0.6,
                       'ensure_normalized': rng.random() < 0.5}}

    def make(self, data):
        from soynlp.predicator import PredicatorExtractor
        kw = dict(data['kw'])
        if not data['default']:
            kw.update(josas=set(gen.JOSAS), adjectives=set(STEMS['adjectives']), verbs=set(STEMS['verbs']),
                      eomis=set(data['eomis']))
        return PredicatorExtractor(set(data['nouns']), **kw)

    def gen_targs(self, rng):
        return {'min_eojeol_frequency': rng.choice([1, 1, 2]), 'filtering_checkpoint': rng.choice([3, 100000]),
                'min_num_of_features': rng.choice([1, 5]), 'min_eomi_frequency': 1}

    def train(self, obj, corpus, targs, data):
        obj.train(corpus, **targs)

    def gen_xargs(self, rng):
        return {'min_predicator_frequency': rng.choice([0, 0, 1])}

    def extract(self, obj, xargs):
        out = obj.extract(**dict({'min_predicator_frequency': 0}, **xargs))
        return canon([{k: [v.frequency, set(v.lemma)] for k, v in d.items()} for d in out])


class PatternT(Trainable):
    name = 'EojeolPatternTrainer'

    def gen(self, rng):
        return {'kw': {'max_left_length': rng.choice([3, 10]), 'max_right_length': rng.choice([2, 6]),
                       'min_frequency': rng.choice([1, 1, 2]), 'verbose': rng.random() < 0.6}}

    def make(self, data):
        from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
        return EojeolPatternTrainer(**data['kw'])

    def gen_targs(self, rng):
        if rng.random() < 0.7:
            return {}
        return {'wordset_l': sorted({gen.syllables(rng, 1, 3) for _ in range(30)} | set(gen.NOUNS)),
                'wordset_r': sorted(gen.JOSAS)}

    def train(self, obj, corpus, targs, data):
        obj.train(corpus, *[set(targs[k]) for k in ('wordset_l', 'wordset_r') if k in targs])

    def view(self, obj, data):
        return canon([obj.lrgraph, obj.rlgraph, obj.wordset_l, obj.wordset_r])


class VectorizerT(Trainable):
    name = 'BaseVectorizer'
    callback = True

    def gen(self, rng):
        return {'kw': {'min_tf': rng.choice([0, 0, 2]), 'max_tf': rng.choice([9999, 5]), 'min_df': rng.choice([0, 0.1]),
                       'max_df': rng.choice([1.0, 0.7]), 'verbose': rng.random() < 0.6},
                'tok': rng.choice(['words', 'chars', 'prefix', 'letters', 'ngrams'])}

    def make(self, data):
        from soynlp.vectorizer import BaseVectorizer
        flaky = Flaky(tokenizer_of(data['tok']))
        v = BaseVectorizer(tokenizer=flaky, **data['kw'])
        v._flaky = flaky
        return v

    def gen_targs(self, rng):
        return {'how': rng.choice(['fit', 'fit', 'fit_transform', 'fit_to_file'])}

    def train(self, obj, corpus, targs, data):
        if targs['how'] == 'fit_to_file':
            obj.fit_to_file(corpus, os.path.abspath('matrix.mtx'))
        else:
            getattr(obj, targs['how'])(corpus)

    def view(self, obj, data):
        words = obj.vocabs()
        docs = [' '.join(words), ' '.join(words[::2] * 2), '없는 말']
        return canon([words, list(obj.idx2vocab), len(obj), obj.decode_from_list(range(-1, len(words) + 1)),
                      [obj.encode_a_doc_to_list(d) for d in docs], [obj.encode_a_doc_to_bow(d) for d in docs],
                      obj.transform(docs)])


class NewsPosT(Trainable):
    name = 'NewsPOSExtractor'
    korean = True

    def klass(self):
        from soynlp.pos import NewsPOSExtractor
        return NewsPOSExtractor

    def gen(self, rng):
        return {'kw': {'verbose': rng.random() < 0.6, 'ensure_normalized': rng.random() < 0.6,
                       'extract_eomi': rng.random() < 0.4}}

    def make(self, data):
        return self.klass()(**data['kw'])

    def gen_targs(self, rng):
        return {'min_noun_score': rng.choice([0.1, 0.3]), 'min_noun_frequency': rng.choice([1, 2]),
                'min_predicator_frequency': rng.choice([0, 1])}

    def train(self, obj, corpus, targs, data):
        obj.train(corpus, **targs)

    def extract(self, obj, xargs):
        tags = obj.extract()
        return canon({t: {w: [c.frequency, set(c.lemma or ())] if hasattr(c, 'lemma') else
                          (tuple(c) if isinstance(c, tuple) else c) for w, c in ws.items()}
                      if isinstance(ws, dict) else ws for t, ws in tags.items()}, 9)

    def view(self, obj, data):
        return self.extract(obj, {})


class ChatPosT(NewsPosT):
    name = 'ChatPOSExtractor'

    def klass(self):
        from soynlp.pos import ChatPOSExtractor
        return ChatPOSExtractor


TRAINABLES = {t.name: t for t in (WordT(), BigramT(), V1T(), V2T(), NewsT(), PredicatorT(), PatternT(), VectorizerT(),
                                  NewsPosT(), ChatPosT())}


class FaultyCorpus:
    """A corpus given by the user. On request an iteration fails at one item."""

    def __init__(self, sents):
        self.sents = sents
        self.passes = 0
        self.fault = None       # (pass, item, exc or replacement)
        self.fired = 0

    def __len__(self):
        return len(self.sents)

    def __iter__(self):
        me = self.passes
        self.passes += 1
        for i, s in enumerate(self.sents):
            if self.fault is not None and me == self.fault[0] and i == self.fault[1]:
                self.fired += 1
                if isinstance(self.fault[2], BaseException):
                    raise self.fault[2]
                yield self.fault[2]
            yield s


def corpus_of(kind, sents, path=None):
    from soynlp.utils import DoublespaceLineCorpus, EojeolCounter
    if kind == 'list':
        return list(sents)
    if kind == 'iter':
        return FaultyCorpus(sents)
    if kind == 'file':
        with open(path, 'w', encoding='utf-8') as f:
            f.write('\n'.join(sents) + '\n')
        return DoublespaceLineCorpus(path, iter_sent=True)
    if kind == 'counter':
        return EojeolCounter(list(sents))
    if kind == 'lrgraph':
        return EojeolCounter(list(sents)).to_lrgraph()
    raise ValueError(kind)
