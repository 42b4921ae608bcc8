"""Things of soynlp which answer questions and should not change by being asked.

Analyser:
    gen(rng)                -> JSON data; data['sents'] is the pool of texts
    make(data)              -> (object, things of the caller which it was given)
    gen_call(rng, data)     -> JSON: one call
    call(obj, c)            -> what soynlp returns
    law(data, c, raw)       -> None, or what is wrong with the answer itself
"""
from sim import gen
from sim.canon import canon

TOKENIZERS = {}
OTHERS = {}


def register(table):
    def deco(cls):
        a = cls()
        table[a.name] = a
        return cls
    return deco


def words_of(sents):
    return sorted({w for s in sents for w in s.split()})


def substrings(rng, sents, n, lo=1, hi=6, prefix=False):
    ws = words_of(sents)
    out = []
    for _ in range(n):
        w = rng.choice(ws)
        b = 0 if prefix or rng.random() < 0.5 else rng.randint(0, len(w) - 1)
        out.append(w[b:b + rng.randint(lo, hi)])
    return sorted({w for w in out if w})


def gen_sents(rng, korean_only=False, n=None):
    v = gen.vocabulary(rng, korean_only)
    out = [gen.sentence(rng, v, 1, 5) for _ in range(n or rng.randint(2, 4))]
    if not korean_only and rng.random() < 0.3:
        out.append(rng.choice(['', ' ', '\t \n', '가', '가  나\t다', '가나다라' * 40, '3.1.2.1ㅋㅋ', 'Bob`s job.1']))
    if not korean_only and rng.random() < 0.3:
        out.append(''.join(rng.choice('가나ab1ㅋㅠ.-+ ') for _ in range(rng.randint(1, 25))))
    return out


class Analyser:
    name = None
    prints = False
    weight = 1

    def gen_call(self, rng, data):
        return {'s': rng.randrange(len(data['sents']))}

    def law(self, data, c, raw):
        return None

    def canon(self, raw):
        return canon(raw, 9)


def glued(tokens, sent):
    want = ''.join(sent.split())
    got = ''.join(tokens)
    return None if got == want else 'tokens {} of {!r} are joined not the text'.format(tokens, sent)


@register(TOKENIZERS)
class L(Analyser):
    name = 'LTokenizer'

    def gen(self, rng):
        sents = gen_sents(rng)
        if not words_of(sents):
            sents.append('가나다')
        return {'sents': sents, 'scores': {w: rng.choice([0.1, 0.2, 0.5, 0.9, -0.3]) for w in substrings(rng, sents, rng.randint(0, 12), prefix=True)},
                'ds': rng.choice([0.0, 0.0, 0.3])}

    def make(self, data):
        from soynlp.tokenizer import LTokenizer
        scores = dict(data['scores'])
        return LTokenizer(scores, data['ds']), [scores]

    def gen_call(self, rng, data):
        return {'s': rng.randrange(len(data['sents'])), 'tolerance': rng.choice([0.0, 0.0, 0.1, 0.4, 1.0]),
                'flatten': rng.random() < 0.5, 'remove_r': rng.random() < 0.4, 'how': rng.choice(['tokenize', 'call'])}

    def call(self, obj, c, data):
        f = obj.tokenize if c['how'] == 'tokenize' else obj
        return f(data['sents'][c['s']], tolerance=c['tolerance'], flatten=c['flatten'], remove_r=c['remove_r'])

    def law(self, data, c, raw):
        sent = data['sents'][c['s']]
        if c['remove_r']:
            words = sent.split()
            ok = len(raw) == len(words) and all(w.startswith(t) and t for t, w in zip(raw, words))
            return None if ok else 'L parts {} of {!r} are no prefixes'.format(raw, sent)
        if not c['flatten']:
            ok = [l + r for l, r in raw] == sent.split()
            return None if ok else 'pairs {} of {!r} do not give the eojeols'.format(raw, sent)
        return glued(raw, sent)


@register(TOKENIZERS)
class MaxScore(Analyser):
    name = 'MaxScoreTokenizer'

    def gen(self, rng):
        sents = gen_sents(rng)
        if not words_of(sents):
            sents.append('가나다')
        return {'sents': sents, 'scores': {w: rng.choice([0.1, 0.2, 0.5, 0.9, -0.3]) for w in substrings(rng, sents, rng.randint(0, 14))},
                'ds': rng.choice([0.0, 0.0, 0.3]), 'max_length': rng.choice([2, 3, 10])}

    def make(self, data):
        from soynlp.tokenizer import MaxScoreTokenizer
        scores = dict(data['scores'])
        return MaxScoreTokenizer(scores, max_length=data['max_length'], default_score=data['ds']), [scores]

    def gen_call(self, rng, data):
        return {'s': rng.randrange(len(data['sents'])), 'flatten': rng.random() < 0.5, 'how': rng.choice(['tokenize', 'call'])}

    def call(self, obj, c, data):
        f = obj.tokenize if c['how'] == 'tokenize' else obj
        return f(data['sents'][c['s']], flatten=c['flatten'])

    def law(self, data, c, raw):
        sent = data['sents'][c['s']]
        if c['flatten']:
            return glued(raw, sent)
        words = sent.split()
        ok = len(raw) == len(words)
        for token, parts in zip(words, raw):
            pos = 0
            for word, b, e, score, n in parts:
                ok = ok and b == pos and token[b:e] == word and n == len(word)
                pos = e
            ok = ok and pos == len(token)
        return None if ok else 'spans {} do not cover {!r}'.format(raw, sent)


@register(TOKENIZERS)
class MaxLR(Analyser):
    name = 'MaxLRScoreTokenizer'
    weight = 2

    def gen(self, rng):
        sents = gen_sents(rng)
        if not words_of(sents):
            sents.append('가나다')
        lr = {}
        for w in words_of(sents):
            for e in range(1, min(len(w), 6) + 1):
                if rng.random() < 0.5:
                    lr.setdefault(w[:e], {})[w[e:]] = rng.randint(1, 5)
        return {'sents': sents, 'Dl': {w: rng.choice([0.2, 0.5, 0.9]) for w in substrings(rng, sents, rng.randint(0, 10), prefix=True)},
                'Dr': {w: rng.choice([0.2, 0.5, 0.9]) for w in substrings(rng, sents, rng.randint(0, 10))},
                'as': rng.choice(['dict', 'set', 'list']),
                'Pl': {w: rng.choice([0.5, 10]) for w in substrings(rng, sents, rng.choice([0, 0, 3]), prefix=True)},
                'Pr': {w: rng.choice([0.5, 10]) for w in substrings(rng, sents, rng.choice([0, 0, 3]))},
                'lrgraph': lr if rng.random() < 0.4 else None, 'builder': rng.random() < 0.3}

    def make(self, data):
        from soynlp.tokenizer import MaxLRScoreTokenizer
        form = {'dict': dict, 'set': set, 'list': lambda d: sorted(d)}[data['as']]
        dl, dr = form(data['Dl']), form(data['Dr'])
        pl, pr = dict(data['Pl']), dict(data['Pr'])
        g = {l: dict(r) for l, r in data['lrgraph'].items()} if data['lrgraph'] else None
        builder = (lambda graph: ({l: 0.7 for l in graph}, {})) if data['builder'] else None
        return MaxLRScoreTokenizer(Dl=dl, Dr=dr, preference_l=pl, preference_r=pr, lrgraph=g, tokenizer_builder=builder), \
            [dl, dr, pl, pr, g]

    def gen_call(self, rng, data):
        return {'s': rng.randrange(len(data['sents'])), 'flatten': rng.random() < 0.6, 'how': rng.choice(['tokenize', 'call']),
                'debug': rng.random() < 0.25}

    def call(self, obj, c, data):
        f = obj.tokenize if c['how'] == 'tokenize' else obj
        return f(data['sents'][c['s']], debug=c['debug'], flatten=c['flatten'])

    def law(self, data, c, raw):
        sent = data['sents'][c['s']]
        tokens = raw if c['flatten'] else [t for ts in raw for t in ts]
        if c['debug']:
            return glued([t[0] + t[1] for t in tokens], sent)
        if not c['flatten'] and [''.join(t[0] for t in ts) for ts in raw] != sent.split():
            return 'eojeols of {!r} are lost in {}'.format(sent, raw)
        return glued([t[0] for t in tokens], sent)


@register(TOKENIZERS)
class Regex(Analyser):
    name = 'RegexTokenizer'
    prints = True

    def gen(self, rng):
        return {'sents': gen_sents(rng) + ["이거에서+3.12같은34숫자나-1.2like float해해", 'ㅋㅋㅜㅠ봐 Bob`s job.1'][:rng.randint(0, 2)]}

    def make(self, data):
        from soynlp.tokenizer import RegexTokenizer
        return RegexTokenizer(), []

    def gen_call(self, rng, data):
        return {'s': rng.randrange(len(data['sents'])), 'flatten': rng.random() < 0.5, 'how': rng.choice(['tokenize', 'call']),
                'debug': rng.random() < 0.3}

    def call(self, obj, c, data):
        f = obj.tokenize if c['how'] == 'tokenize' else obj
        return f(data['sents'][c['s']], debug=c['debug'], flatten=c['flatten'])

    def law(self, data, c, raw):
        sent = data['sents'][c['s']]
        if c['flatten']:
            return glued(raw, sent)
        ok = [''.join(t) for t in raw] == sent.split()
        return None if ok else 'eojeols of {!r} are lost in {}'.format(sent, raw)


def noun_data(rng):
    sents = gen_sents(rng)
    if not words_of(sents):
        sents.append('가나다')
    return {'sents': sents, 'scores': {w: rng.choice([0.1, 0.5, 0.9]) for w in substrings(rng, sents, rng.randint(0, 12))}}


@register(TOKENIZERS)
class NounL(Analyser):
    name = 'NounLMatchTokenizer'

    def gen(self, rng):
        return dict(noun_data(rng), form=rng.choice(['dict', 'set', 'list']))

    def make(self, data):
        from soynlp.tokenizer import NounLMatchTokenizer
        nouns = {'dict': dict, 'set': set, 'list': lambda d: sorted(d)}[data['form']](data['scores'])
        return NounLMatchTokenizer(nouns), [nouns]

    def gen_call(self, rng, data):
        return {'s': rng.randrange(len(data['sents'])), 'compound': rng.random() < 0.5, 'how': rng.choice(['tokenize', 'call'])}

    def call(self, obj, c, data):
        f = obj.tokenize if c['how'] == 'tokenize' else obj
        return f(data['sents'][c['s']], compose_compound=c['compound'])

    def law(self, data, c, raw):
        words = data['sents'][c['s']].split()
        if not c['compound']:
            return None if all(t in data['scores'] for t in raw) else 'not a noun in {}'.format(raw)
        pos = 0
        for t in raw:
            while pos < len(words) and not words[pos].startswith(t):
                pos += 1
            if pos == len(words):
                return '{} are no beginnings of the eojeols of {!r}, in order'.format(raw, words)
            pos += 1
        return None


@register(TOKENIZERS)
class NounMatch(Analyser):
    name = 'NounMatchTokenizer'

    def gen(self, rng):
        return noun_data(rng)

    def make(self, data):
        from soynlp.tokenizer import NounMatchTokenizer
        scores = dict(data['scores'])
        return NounMatchTokenizer(scores), [scores]

    def gen_call(self, rng, data):
        return {'s': rng.randrange(len(data['sents'])), 'compound': rng.random() < 0.5, 'flatten': rng.random() < 0.5,
                'how': rng.choice(['tokenize', 'call'])}

    def call(self, obj, c, data):
        f = obj.tokenize if c['how'] == 'tokenize' else obj
        return f(data['sents'][c['s']], flatten=c['flatten'], compose_compound=c['compound'])

    def law(self, data, c, raw):
        sent = data['sents'][c['s']]
        if not c['flatten']:
            ok = len(raw) == len(sent.split())
            for token, parts in zip(sent.split(), raw):
                pos = 0
                for word, b, e, _, n in parts:
                    ok = ok and b >= pos and token[b:e] == word and n == e - b
                    pos = e
            return None if ok else 'spans {} do not fit {!r}'.format(raw, sent)
        text, pos = ''.join(sent.split()), 0
        for t in raw:
            pos = text.find(t, pos)
            if pos < 0:
                return '{} are not found in {!r}, in order'.format(raw, sent)
            pos += len(t)
        if not c['compound'] and not all(t in data['scores'] or len(t) < 2 for t in raw):
            return 'not a noun in {}'.format(raw)
        return None


# ------------------------------------------------------------------ everything else which answers questions

KOREAN_WORDS = gen.PREDS + gen.NOUNS + ['그래', '불어', '퍼', '꺼', '줬어', '왔다', '텄어', '파랬다', '시퍼렜다', '졌어', '하였다', '이르러', '똥퍼', '모았다']


def korean_words(rng, n):
    return [rng.choice(KOREAN_WORDS) if rng.random() < 0.7 else gen.syllables(rng, 1, 4) for _ in range(n)]


@register(OTHERS)
class Tagger(Analyser):
    name = 'SimpleTagger'
    weight = 2

    def gen(self, rng):
        sents = gen_sents(rng)
        if not words_of(sents):
            sents.append('가나다')
        tags = {t: substrings(rng, sents, rng.randint(0, 8), prefix=t != 'Josa')
                for t in ('Noun', 'Josa', 'Verb', 'Adjective', 'Adverb', 'Exclamation')}
        if rng.random() < 0.6:      # words with several tags
            for w in substrings(rng, sents, 5, prefix=True):
                for t in rng.sample(sorted(tags), rng.randint(1, 3)):
                    tags[t] = sorted(set(tags[t]) | {w})
        tags['Josa'] = sorted(set(tags['Josa']) | set(rng.sample(gen.JOSAS, 5)))
        template = rng.choice(['lr', 'eojeol'])
        return {'sents': sents, 'tags': tags, 'template': template,
                'preference': {'Noun': {w: 10.0 for w in tags['Noun'][:2]}} if template == 'lr' and rng.random() < 0.4 else None}

    def make(self, data):
        from soynlp import postagger as p
        tags = {t: set(w) for t, w in data['tags'].items()}
        d = p.Dictionary(tags)
        if data['template'] == 'lr':
            preference = {t: dict(w) for t, w in data['preference'].items()} if data['preference'] else None
            return p.SimpleTagger(p.LRTemplateMatcher(d), p.LREvaluator(preference=preference), p.UnknowLRPostprocessor()), \
                [tags, preference]
        return p.SimpleTagger(p.EojeolTemplateMatcher(d), p.SimpleEojeolEvaluator()), [tags]

    def gen_call(self, rng, data):
        return {'s': rng.randrange(len(data['sents'])), 'flatten': rng.random() < 0.6, 'debug': rng.random() < 0.2}

    def call(self, obj, c, data):
        return obj.tag(data['sents'][c['s']], flatten=c['flatten'], debug=c['debug'])

    def law(self, data, c, raw):
        sent = data['sents'][c['s']]
        words = raw[0] if c['debug'] else raw
        if not c['flatten'] and [''.join(w for w, _ in ws) for ws in words] != sent.split():
            return 'eojeols of {!r} are lost in {}'.format(sent, words)
        if not c['flatten']:
            words = [w for ws in words for w in ws]
        for w, tag in words:
            if tag is not None and w not in data['tags'].get(tag, ()):
                return '{}/{} is not in the dictionary'.format(w, tag)
        return glued([w for w, _ in words], sent)


@register(OTHERS)
class Lemma(Analyser):
    name = 'Lemmatizer'

    def gen(self, rng):
        from .trainables import EOMIS, STEMS
        stems = STEMS['adjectives'] + STEMS['verbs']
        return {'sents': [], 'words': korean_words(rng, 4), 'stems': sorted(rng.sample(stems, rng.randint(5, len(stems)))),
                'endings': sorted(rng.sample(EOMIS, rng.randint(5, len(EOMIS)))), 'predefined': rng.random() < 0.3}

    def make(self, data):
        from soynlp.lemmatizer import Lemmatizer
        stems, endings = set(data['stems']), set(data['endings'])
        predefined = {('먹', '었다'): {('먹', '었다')}} if data['predefined'] else None
        return Lemmatizer(stems, endings, predefined), [stems, endings, predefined]

    def gen_call(self, rng, data):
        return {'w': rng.randrange(4), 'only': rng.random() < 0.4, 'how': rng.choice(['lemmatize', 'lemmatize', 'candidates'])}

    def call(self, obj, c, data):
        w = data['words'][c['w']]
        if c['how'] == 'candidates':
            return obj.candidates(w)
        return obj.lemmatize(w, check_only_stem=c['only'])

    def law(self, data, c, raw):
        if c['how'] == 'lemmatize' and any(s not in data['stems'] or (not c['only'] and e not in data['endings']) for s, e in raw):
            return 'unknown stem or ending in {}'.format(raw)


@register(OTHERS)
class Functions(Analyser):
    """Functions of modules: nothing may be remembered"""
    name = 'functions'
    prints = True
    weight = 4

    NAMES = ['conjugate', 'conjugate_chat', 'lemma_candidate', 'lemma_candidate_chat', 'normalize', 'emoticon_normalize',
             'repeat_normalize', 'only_hangle', 'only_hangle_number', 'only_text', 'remain_hangle_on_last', 'remove_doublespace',
             'normalize_sent_for_lrgraph', 'tokenizer.normalize', 'hangle.normalize', 'levenshtein', 'jamo_levenshtein',
             'cosine_distance', 'jaccard_distance', 'encoder', 'decompose', 'stem_to_adverb', 'load_default_adverbs',
             'detaching_features', 'ignore_features', 'as_present', 'as_imperative', 'as_pleasure', 'rule_classify', 'dictionary-load',
             'installed-tags']

    def gen(self, rng):
        from .trainables import EOMIS, STEMS
        stems = STEMS['adjectives'] + STEMS['verbs']
        return {'sents': gen_sents(rng, n=3), 'words': korean_words(rng, 4), 'stems': rng.sample(stems, 3),
                'endings': rng.sample(EOMIS, 3)}

    def make(self, data):
        return None, []

    def gen_call(self, rng, data):
        return {'f': rng.choice(self.NAMES), 'a': rng.randrange(3), 'b': rng.randrange(3), 'x': rng.random() < 0.5,
                'y': rng.random() < 0.5, 'n': rng.choice([0, 1, 2, 3])}

    def call(self, obj, c, data):
        import soynlp.hangle as h
        import soynlp.lemmatizer as lem
        import soynlp.normalizer as nor
        import soynlp.tokenizer as tok
        from soynlp.noun import _noun_postprocessing as post
        from soynlp.pos import _adverb
        from soynlp.predicator import _adjective_vs_verb as av
        f, n = c['f'], c['n']
        sent, other = data['sents'][c['a']], data['sents'][c['b']]
        word, stem, ending = data['words'][c['a']], data['stems'][c['a']], data['endings'][c['b']]
        if f in ('conjugate', 'conjugate_chat'):
            return getattr(lem, f)(stem, ending, enforce_moum_harmoney=c['x'], debug=c['y'] and n == 0)
        if f in ('lemma_candidate', 'lemma_candidate_chat'):
            k = 1 + n % len(word)
            return getattr(lem, f)(word[:k], word[k:], None, c['y'] and n == 0)
        if f == 'normalize':
            return nor.normalize(sent, alphabet=c['x'], number=c['y'], punctuation=n > 1, symbol=n % 2 == 1, remove_repeat=n)
        if f in ('emoticon_normalize', 'repeat_normalize'):
            return getattr(nor, f)(sent, n)
        if f in ('only_hangle', 'only_hangle_number', 'only_text', 'remain_hangle_on_last', 'remove_doublespace',
                 'normalize_sent_for_lrgraph'):
            return getattr(nor, f)(sent)
        if f == 'tokenizer.normalize':
            return tok.normalize(sent, n)
        if f == 'hangle.normalize':
            return h.normalize(sent.replace('\t', ' '), english=c['x'], number=c['y'], punctuation=n > 1, remove_repeat=n)
        if f == 'levenshtein':
            return h.levenshtein(sent, other, {(a, b): 0.1 for a in sent[:3] for b in other[:3]}) if c['x'] else h.levenshtein(sent, other)
        if f == 'jamo_levenshtein':
            return h.jamo_levenshtein(word, data['words'][c['b']])
        if f in ('cosine_distance', 'jaccard_distance'):
            return getattr(h, f)(sent, other)
        if f == 'encoder':
            e = h.ConvolutionHangleEncoder()
            return [e.sent_to_onehot(sent), e.encode(word).sum(axis=0).tolist()]
        if f == 'decompose':
            return [h.decompose(ch) for ch in sent]
        if f == 'stem_to_adverb':
            return _adverb.stem_to_adverb([stem, word + '하'], ['히', '게'] if c['x'] else None)
        if f == 'load_default_adverbs':
            return _adverb.load_default_adverbs()
        if f in ('detaching_features', 'ignore_features'):
            nouns = {w: (1, 0.5) for s in data['sents'] for w in s.split()}
            return getattr(post, f)(nouns, {w[2:] for w in nouns})
        if f in ('as_present', 'as_imperative', 'as_pleasure'):
            return getattr(av, 'conju' + 'gate_' + f)(stem)
        if f == 'rule_classify':
            return av.rule_classify(stem)
        if f == 'installed-tags':
            from soynlp.postagger import tagset
            from soynlp.lemmatizer import Lemmatizer
            return [sorted(x for x in vars(tagset) if not x.startswith('_') and x != 'sys'),
                    Lemmatizer({'붇', '불', '그렇'}, {'어', '아'}).lemmatize('불어')]
        from soynlp.postagger import Dictionary
        return Dictionary({'Noun': data['words'], 'Verb': [stem]}).get_pos(word)


@register(OTHERS)
class Vectorizer(Analyser):
    name = 'BaseVectorizer'
    prints = True

    def gen(self, rng):
        sents = gen_sents(rng)
        if not words_of(sents):
            sents.append('가나다')
        return {'sents': sents, 'kw': {'min_tf': rng.choice([0, 2]), 'max_df': rng.choice([1.0, 0.7])}, 'verbose': rng.random() < 0.5}

    def make(self, data):
        from soynlp.vectorizer import BaseVectorizer
        docs = list(data['sents'])
        return BaseVectorizer(verbose=data['verbose'], **data['kw']).fit(docs), [docs]

    def gen_call(self, rng, data):
        return {'s': rng.randrange(len(data['sents'])), 'how': rng.choice(['list', 'bow', 'decode', 'decode_bow', 'vocabs', 'transform'])}

    def call(self, obj, c, data):
        s = data['sents'][c['s']]
        if c['how'] == 'list':
            return obj.encode_a_doc_to_list(s)
        if c['how'] == 'bow':
            return obj.encode_a_doc_to_bow(s)
        if c['how'] == 'decode':
            return obj.decode_from_list(obj.encode_a_doc_to_list(s) + [-1, 10 ** 6])
        if c['how'] == 'decode_bow':
            return obj.decode_from_bow(obj.encode_a_doc_to_bow(s))
        if c['how'] == 'vocabs':
            return obj.vocabs()
        return obj.transform([s, s])


class Model(Analyser):
    """A trained model of checks/trainables.py"""
    trainable = None

    def gen(self, rng):
        from .trainables import TRAINABLES
        t = TRAINABLES[self.trainable]
        v = gen.vocabulary(rng, t.korean)
        return {'sents': gen.corpus(rng, 4, 20, v, t.korean), 'data': dict(t.gen(rng), log=False), 'targs': t.gen_targs(rng)}

    def make(self, data):
        from .trainables import TRAINABLES
        t = TRAINABLES[self.trainable]
        obj = t.make(data['data'])
        sents = list(data['sents'])
        t.train(obj, sents, data['targs'], data['data'])
        self.after(obj)
        return obj, [sents]

    def after(self, obj):
        pass

    def gen_call(self, rng, data):
        ws = words_of(data['sents'])
        w = rng.choice(ws)
        return {'w': w[:rng.randint(1, len(w))] if rng.random() < 0.7 else w, 'how': rng.choice(self.HOWS), 'x': rng.choice([0.0, 0.1, 0.5]),
                'n': rng.choice([-1, 0, 1, 3])}


@register(OTHERS)
class WordModel(Model):
    name = 'WordExtractor'
    trainable = 'WordExtractor'
    prints = True
    HOWS = ['cohesion_score', 'branching_entropy', 'accessor_variety', 'frequency', 'words', 'all_cohesion_scores',
            'all_branching_entropy', 'all_accessor_variety', 'word_scores', 'extract']

    def call(self, obj, c, data):
        if c['how'] in ('cohesion_score', 'branching_entropy', 'accessor_variety', 'frequency'):
            return getattr(obj, c['how'])(c['w'])
        return getattr(obj, c['how'])()


@register(OTHERS)
class V1Model(Model):
    name = 'LRNounExtractor'
    trainable = 'LRNounExtractor'
    HOWS = ['predict', 'predict', 'is_noun', 'get_r', 'get_l']

    def call(self, obj, c, data):
        if c['how'] == 'predict':
            return obj.predict(c['w'], c['x'])
        if c['how'] == 'is_noun':
            return obj.is_noun(c['w'], c['x'])
        return getattr(obj.lrgraph, c['how'])(c['w'], c['n'])


@register(OTHERS)
class V2Model(Model):
    name = 'LRNounExtractor_v2'
    trainable = 'LRNounExtractor_v2'
    weight = 2
    prints = True
    HOWS = ['predict', 'predict', 'decompose', 'get_r', 'get_l', 'counter', 'copy', 'determiner']

    def gen(self, rng):
        data = super().gen(rng)
        data['data']['kw']['extract_compound'] = True
        return data

    def after(self, obj):
        obj.extract(0.1, 1)

    def call(self, obj, c, data):
        if c['how'] == 'predict':
            return obj.predict(c['w'], c['x'], debug=c['n'] == 3)
        if c['how'] == 'decompose':
            return obj.decompose_compound(c['w'])
        if c['how'] == 'counter':
            return dict(obj.lrgraph.to_EojeolCounter(reset_lrgraph=c['n'] > 0).items())
        if c['how'] == 'copy':
            g = obj.lrgraph.copy_compatified_lrgraph_origin()
            return dict(g.to_EojeolCounter().items())
        if c['how'] == 'determiner':
            return obj.predict(c['w'])
        return getattr(obj.lrgraph, c['how'])(c['w'], c['n'])


@register(OTHERS)
class NewsModel(Model):
    name = 'NewsNounExtractor'
    trainable = 'NewsNounExtractor'
    HOWS = ['predict', 'predict', 'l_frequency']

    def call(self, obj, c, data):
        return getattr(obj, c['how'])(c['w'])


@register(OTHERS)
class CounterModel(Analyser):
    name = 'EojeolCounter'

    def gen(self, rng):
        return {'sents': gen.corpus(rng, 2, 12), 'min_count': rng.choice([1, 1, 2]), 'max_length': rng.choice([3, 15])}

    def make(self, data):
        from soynlp.utils import EojeolCounter
        sents = list(data['sents'])
        return EojeolCounter(sents, min_count=data['min_count'], max_length=data['max_length']), [sents]

    def gen_call(self, rng, data):
        return {'w': rng.choice(words_of(data['sents'])), 'how': rng.choice(['get', 'item', 'len', 'sum', 'items', 'uncovered', 'graph', 'coverage']),
                'n': rng.choice([2, 4, 10]), 'x': rng.random() < 0.5}

    def call(self, obj, c, data):
        how, w = c['how'], c['w']
        if how == 'get':
            return obj.get_eojeol_count(w)
        if how == 'item':
            return obj[w]
        if how == 'len':
            return [len(obj), obj.num_of_unique_uncovered_eojeols]
        if how == 'sum':
            return obj.num_of_uncovered_eojeols
        if how == 'items':
            return dict(obj.items())
        if how == 'uncovered':
            return obj.get_uncovered_eojeols(c['n'] // 2)
        if how == 'coverage':
            return obj.coverage
        g = obj.to_lrgraph(l_max_length=c['n'], r_max_length=c['n'] - 1, ignore_one_syllable=c['x'])
        g.remove_eojeol(w)
        return [g.get_r(w[0], -1), g.get_l(w[-1], -1), dict(g.to_EojeolCounter(True).items())]


@register(OTHERS)
class BigramModel(Model):
    name = 'Bigram'
    trainable = 'Bigram'
    HOWS = ['extract']

    def call(self, obj, c, data):
        return {k: tuple(v) for k, v in obj.extract(threshold=c['n']).items()}


@register(OTHERS)
class MatrixFunctions(Analyser):
    name = 'matrix functions'

    def gen(self, rng):
        sents = gen.corpus(rng, 4, 12)
        return {'sents': sents, 'min_tf': rng.choice([1, 1, 2])}

    def make(self, data):
        from soynlp.vectorizer import sent_to_word_contexts_matrix
        x, words = sent_to_word_contexts_matrix(list(data['sents']), windows=2, min_tf=data['min_tf'], verbose=False)
        return (x, words), [x, words]

    def gen_call(self, rng, data):
        return {'how': rng.choice(['pmi', 'pmi', 'similar', 'similar', 'svd', 'contexts']), 'min_pmi': rng.choice([0, 0.5]),
                'alpha': rng.choice([0.0, 0.01]), 'beta': rng.choice([1, 0.75]), 'n': rng.randint(0, 3), 'topk': rng.choice([-1, 1, 3])}

    def call(self, obj, c, data):
        import numpy as np
        from soynlp.utils import most_similar, svd
        from soynlp.vectorizer import sent_to_word_contexts_matrix
        from soynlp.word import pmi
        x, words = obj
        if c['how'] == 'contexts':
            return sent_to_word_contexts_matrix(data['sents'], windows=1 + c['n'], min_tf=data['min_tf'], verbose=False,
                                                dynamic_weight=c['beta'] < 1)
        if x.sum() == 0:
            return None
        if c['how'] == 'pmi':
            m, px, py = pmi(x, min_pmi=c['min_pmi'], alpha=c['alpha'], beta=c['beta'])
            return [m, np.asarray(px), np.asarray(py)]
        if c['how'] == 'svd':
            if x.shape[1] <= 2:
                return None
            u, s, vt = svd(x.astype(float), 2, n_iter=3, random_state=c['n'])
            return [float(v) for v in s]
        return sorted(most_similar(words[c['n'] % len(words)], x, {w: i for i, w in enumerate(words)}, words, -1))
