"""Things which soynlp writes to files and reads back.

Subject:
    gen(rng)            -> JSON data from which an object is made
    build(data)         -> object
    mutate(obj, op)     -> continue the history of an object (op from gen_op)
    save(obj, path)
    path(path)          -> name of the file which save really writes
    load(path)          -> a fresh object which has read the file
    load_into(obj, path)
    view(obj)           -> canonical form of what a user can observe
    saved_view(obj)     -> what the file must hold of it (default: view)
    edges               -> creates missing directories?
"""
import copy
import json
import pickle

from sim import gen
from sim.canon import canon

from .trainables import tokenizer_of

HANGUL = '가나다라한국말'
MIXED = '가나ab1ㅋ'
ODDCHARS = '가\u200b\ufeffé:(#>-)\U0001f600\x00"\\'


def _sents(rng, lo=1, hi=10):
    v = rng.random()
    if v < 0.4:
        return gen.corpus(rng, lo, hi)
    alphabet = rng.choice([HANGUL[:3], MIXED, HANGUL, ODDCHARS])
    return [' '.join(gen.small_token(rng, alphabet, 1, rng.choice([2, 4, 12]))
                     for _ in range(rng.randint(1, 6))) for _ in range(rng.randint(lo, hi))]


class Subject:
    mkdirs = False
    name = None
    can_load = True
    continuable = True      # all parameters are in the file

    def path(self, path):
        return path

    def saved_view(self, obj):
        return self.view(obj)

    binary = False

    def malformed(self, data, how, where):
        """Bytes of a file which is surely not well formed, or None"""
        return None

    def _edit_line(self, data, where, edit):
        lines = data.decode('utf-8').split('\n')
        last = len(lines) - 1
        if last < 1:
            return None
        i = int(where * last) % last
        new = edit(lines[i])
        if new is None:
            return None
        lines[i] = new
        return '\n'.join(lines).encode('utf-8')

    poison_key = None

    def poisoned(self, data, where):
        """Object which holds a character that utf-8 cannot encode"""
        if self.poison_key is None:
            return None
        data = copy.deepcopy(data)
        items = data[self.poison_key]
        items.insert(int(where * (len(items) + 1)), '가나 가\ud8ff다 나')
        return self.build(data)

    def file_view(self, path):
        return self.view(self.load(path))

    def load(self, path):
        obj = self.blank()
        self.load_into(obj, path)
        return obj

    def load_into(self, obj, path):
        obj.load(path)

    def save(self, obj, path):
        obj.save(path)


class EojeolCounterSubject(Subject):
    name = 'EojeolCounter'

    def malformed(self, data, how, where):
        return self._edit_line(data, where, [
            lambda l: l.rsplit(' ', 1)[0], lambda l: l + ' 3', lambda l: l + 'x', lambda l: '',
            lambda l: l.rsplit(' ', 1)[0] + ' 1.5'][how % 5])

    poison_key = 'sents'
    mkdirs = True

    def gen(self, rng):
        return {'sents': _sents(rng), 'min_count': rng.choice([1, 1, 1, 2])}

    def blank(self):
        from soynlp.utils import EojeolCounter
        return EojeolCounter()

    def build(self, data):
        from soynlp.utils import EojeolCounter
        if not data['sents']:
            return EojeolCounter()
        return EojeolCounter(data['sents'], min_count=data['min_count'])

    def gen_op(self, rng):
        return {'remove': [gen.small_token(rng, HANGUL[:3], 1, 2) for _ in range(3)], 'frac': rng.random()}

    def mutate(self, obj, op):
        keys = sorted(k for k, _ in obj.items())
        drop = set(op['remove']) | set(keys[:int(len(keys) * op['frac'])])
        if obj.num_of_uncovered_eojeols:
            obj.remove_covered_eojeols(drop)

    def view(self, obj):
        return canon([obj.coverage, self._contents(obj)])

    def _contents(self, obj):
        items = sorted(obj.items())
        # the total is visible as coverage after a removal
        rest = copy.deepcopy(obj)
        ratio = None
        if items and obj.num_of_uncovered_eojeols:
            rest.remove_covered_eojeols({k for k, _ in items[::2]})
            ratio = rest.coverage
        return canon([items, len(obj), obj.num_of_uncovered_eojeols, obj.num_of_unique_uncovered_eojeols,
                      [obj[k] for k, _ in items], ratio, sorted(rest.items())], 12)

    def saved_view(self, obj):
        fresh = self.blank()
        items = sorted(obj.items())
        total = sum(c for _, c in items)
        drop = [k for k, _ in items[::2]]
        rest = [[k, c] for k, c in items if k not in set(drop)]
        ratio = 1 - sum(c for _, c in rest) / total if total else None
        return canon([fresh.coverage, canon([items, len(items), total, len(items), [c for _, c in items], ratio, rest], 12)])


class LRGraphSubject(Subject):
    name = 'LRGraph'

    def malformed(self, data, how, where):
        return self._edit_line(data, where, [
            lambda l: l.split(' ')[0], lambda l: l + ' 3 4', lambda l: l + 'x', lambda l: '',
            lambda l: l.rsplit(' ', 1)[0] + ' 1.5'][how % 5])

    poison_key = 'sents'
    mkdirs = True

    def gen(self, rng):
        return {'sents': _sents(rng), 'l': rng.choice([2, 3, 10]), 'r': rng.choice([1, 2, 9]),
                'via': rng.choice(['counter', 'sents', 'dict'])}

    def blank(self):
        from soynlp.utils import LRGraph
        return LRGraph()

    def build(self, data):
        from soynlp.utils import EojeolCounter, LRGraph
        if not data['sents']:
            return LRGraph()
        if data['via'] == 'sents':
            return LRGraph(sents=data['sents'], l_max_length=data['l'], r_max_length=data['r'])
        g = EojeolCounter(data['sents']).to_lrgraph(data['l'], data['r'])
        if data['via'] == 'dict':
            lr = {}
            for e, c in EojeolCounter(data['sents']).items():
                lr.setdefault(e[:2], {})
                lr[e[:2]][e[2:]] = lr[e[:2]].get(e[2:], 0) + c
            return LRGraph(lrgraph=lr)
        return g

    def gen_op(self, rng):
        return {'ops': [[rng.choice(['remove_eojeol', 'remove_lr_pair', 'add_lr_pair', 'reset']),
                         rng.random(), rng.randint(1, 3)] for _ in range(rng.randint(1, 4))]}

    def mutate(self, obj, op):
        for name, where, count in op['ops']:
            words = sorted(k for k, _ in obj.to_EojeolCounter(True).items())
            if name == 'reset':
                obj.reset_lrgraph()
            elif words:
                w = words[int(where * len(words)) % len(words)]
                if name == 'remove_eojeol':
                    obj.remove_eojeol(w, count)
                else:
                    cut = 1 + int(where * 7) % len(w)
                    getattr(obj, name)(w[:cut], w[cut:], count)

    def _edges(self, obj, words):
        ls = sorted({w[:i] for w in words for i in range(1, len(w) + 1)})
        rs = sorted({w[i:] for w in words for i in range(1, len(w))})
        return [[[l, sorted(obj.get_r(l, -1))] for l in ls if obj.get_r(l, -1)],
                [[r, sorted(obj.get_l(r, -1))] for r in rs if obj.get_l(r, -1)],
                # (counts of an eojeol which is consumed unevenly depend on the order of pairs)
                sorted(w for w, _ in obj.to_EojeolCounter().items())]

    def view(self, obj):
        origin = obj.copy_compatified_lrgraph_origin()
        words = {w for w, _ in obj.to_EojeolCounter().items()} | {w for w, _ in origin.to_EojeolCounter().items()}
        return canon([self._edges(obj, words), self._edges(origin, words),
                      sorted(w for w, _ in obj.to_EojeolCounter(True).items())])

    def saved_view(self, obj):
        """What is saved is the graph as it was built or loaded"""
        return self.view(self._rebuilt(obj))

    def _rebuilt(self, obj):
        from soynlp.utils import LRGraph
        origin = obj.copy_compatified_lrgraph_origin()
        words = {w for w, _ in origin.to_EojeolCounter().items()}
        lr = {}
        for l in sorted({w[:i] for w in words for i in range(1, len(w) + 1)}):
            r = origin.get_r(l, -1)
            if r:
                lr[l] = dict(r)
        return LRGraph(lrgraph=lr) if lr else LRGraph()


class WordExtractorSubject(Subject):
    name = 'WordExtractor'
    binary = True

    def malformed(self, data, how, where):
        if how % 5 == 0:
            return data[:int(where * len(data))]
        params = pickle.loads(data)
        if how % 5 == 1:
            params['data'].pop(sorted(params['data'])[int(where * 4) % 4])
        elif how % 5 == 2:
            names = sorted(params['configuration'])
            params['configuration'].pop(names[int(where * len(names)) % len(names)])
        elif how % 5 == 3:
            params.pop(['data', 'configuration'][int(where * 2) % 2])
        else:
            params['data'][sorted(params['data'])[int(where * 4) % 4]] = 3
        return pickle.dumps(params)


    def gen(self, rng):
        return {'sents': _sents(rng), 'kw': {
            'max_left_length': rng.choice([3, 10]), 'max_right_length': rng.choice([2, 6]),
            'min_frequency': rng.choice([1, 1, 2]), 'verbose_points': rng.choice([-1, 2, 100000]),
            'min_cohesion_forward': rng.choice([0.05, 0.1]), 'min_cohesion_backward': rng.choice([0.0, 0.02]),
            'max_droprate_leftside_frequency': rng.choice([0.98, 0.5]),
            'min_left_branching_entropy': rng.choice([0.0, 0.1]),
            'min_right_branching_entropy': rng.choice([0.0, 0.2]),
            'min_left_accessor_variety': rng.choice([0, 1]),
            'min_right_accessor_variety': rng.choice([0, 2]),
            'remove_subwords': rng.choice([True, False])}}

    def blank(self):
        from soynlp.word import WordExtractor
        return WordExtractor(verbose_points=-1, min_frequency=77, max_left_length=5, max_right_length=5,
                             min_cohesion_forward=0.9, remove_subwords=True)

    def build(self, data):
        from soynlp.word import WordExtractor
        w = WordExtractor(**data['kw'])
        if data['sents']:
            w.train(data['sents'])
        return w

    def gen_op(self, rng):
        return {'sents': _sents(rng), 'cumulate': rng.random() < 0.6}

    def mutate(self, obj, op):
        if op['sents']:
            obj.train(op['sents'], cumulate=op['cumulate'])

    CONF = ('max_left_length', 'max_right_length', 'min_frequency', 'verbose', 'min_cohesion_forward',
            'min_cohesion_backward', 'max_droprate_leftside_frequency', 'min_left_branching_entropy',
            'min_right_branching_entropy', 'min_left_accessor_variety', 'min_right_accessor_variety',
            'remove_subwords')

    def view(self, obj):
        # insertion order of counters decides the order of float additions: round
        scores = {w: tuple(s) for w, s in obj.word_scores().items()}
        return canon([[getattr(obj, k) for k in self.CONF], dict(obj.L), dict(obj.R), canon(scores, 9),
                      sorted(obj.extract())], None)


class VocabSubject(Subject):
    name = 'Vectorizer.vocab'
    continuable = False
    poison_key = 'docs'

    def gen(self, rng):
        return {'docs': _sents(rng), 'min_tf': rng.choice([0, 0, 2]), 'tok': rng.choice(['words', 'words', 'letters', 'ngrams'])}

    def path(self, path):
        return path if path.endswith('.vocab') else path + '.vocab'

    def blank(self):
        from soynlp.vectorizer import BaseVectorizer
        return BaseVectorizer(verbose=False)

    def build(self, data):
        from soynlp.vectorizer import BaseVectorizer
        v = BaseVectorizer(tokenizer=tokenizer_of(data['tok']), min_tf=data['min_tf'], verbose=True)
        if data['docs']:
            v.fit(data['docs'])
        return v

    def gen_op(self, rng):
        return {'docs': _sents(rng)}

    def mutate(self, obj, op):
        if op['docs']:
            obj.fit(op['docs'])

    def view(self, obj):
        words = obj.vocabs()
        obj = copy.copy(obj)
        obj.tokenizer = lambda doc: doc.split()      # tokenizers are not saved
        return canon([words, list(obj.idx2vocab), len(obj), obj.vocabulary_, obj.decode_from_list(range(-1, len(words) + 2)),
                      obj.encode_a_doc_to_list(' '.join(words)), obj.encode_a_doc_to_bow(' '.join(words))])


class MatrixSubject(Subject):
    """BaseVectorizer.to_file: there is nothing in soynlp which reads it back"""
    name = 'Vectorizer.to_file'
    mkdirs = True
    can_load = False

    def gen(self, rng):
        return {'docs': _sents(rng), 'verbose': rng.random() < 0.5, 'fit': rng.random() < 0.5}

    def build(self, data):
        from soynlp.vectorizer import BaseVectorizer
        v = BaseVectorizer(verbose=data['verbose'])
        docs = data['docs'] or ['빈']
        v.fit(docs)
        v._docs_for_save = docs
        v._fit_for_save = data['fit']
        return v

    def save(self, obj, path):
        if obj._fit_for_save:
            obj.fit_to_file(obj._docs_for_save, path)
        else:
            obj.to_file(obj._docs_for_save, path)

    def view(self, obj):
        return canon(obj.transform(obj._docs_for_save))

    def file_view(self, path):
        return read_matrix_market(path)


def read_matrix_market(path):
    with open(path, encoding='utf-8') as f:
        lines = f.read().split('\n')
    if lines[0] != '%%MatrixMarket matrix coordinate integer general':
        raise ValueError('no MatrixMarket header')
    if lines[-1] != '':
        raise ValueError('last line is cut')
    body = [l for l in lines[1:-1] if not l.startswith('%')]
    n, m, nnz = map(int, body[0].split())
    cells = []
    for l in body[1:]:
        i, j, c = map(int, l.split())
        if not (1 <= i <= n and 1 <= j <= m):
            raise ValueError('index outside of the matrix')
        cells.append([i - 1, j - 1, c])
    if len(cells) != nnz:
        raise ValueError('{} elements announced, {} present'.format(nnz, len(cells)))
    if len({(i, j) for i, j, _ in cells}) != nnz:
        raise ValueError('element present twice')
    return canon(['matrix', [n, m], sorted(cells)])


class DictionarySubject(Subject):
    name = 'Dictionary'

    def malformed(self, data, how, where):
        if how % 5 in (0, 1):
            return data[:int(where * len(data))]
        params = json.loads(data.decode('utf-8'))
        if how % 5 == 2:
            params.pop('max_length')
        elif how % 5 == 3:
            params.pop('pos_dict')
        else:
            params['pos_dict']['Noun'] = 3
        return json.dumps(params).encode('utf-8')


    def poisoned(self, data, where):
        data = {'pos': dict(data['pos'])}
        data['pos']['Noun'] = list(data['pos'].get('Noun', ())) + ['가\ud8ff']
        return self.build(data)

    TAGS = ('Noun', 'Verb', 'Josa', 'Adverb')

    def gen(self, rng):
        return {'pos': {t: [gen.small_token(rng, rng.choice([HANGUL, 'aB"\\\n é']), 1, 5)
                            for _ in range(rng.randint(0, 8))]
                        for t in rng.sample(self.TAGS, rng.randint(0, 4))}}

    def blank(self):
        from soynlp.postagger import Dictionary
        return Dictionary({'Blank': {'빈칸'}})

    def build(self, data):
        from soynlp.postagger import Dictionary
        return Dictionary({t: set(w) for t, w in data['pos'].items()})

    def gen_op(self, rng):
        return {'op': rng.choice(['add', 'add', 'remove', 'pop']), 'tag': rng.choice(self.TAGS),
                'words': [gen.small_token(rng, HANGUL, 1, 6) for _ in range(rng.randint(0, 4))]}

    def mutate(self, obj, op):
        if op['op'] == 'add':
            obj.add_words(op['tag'], op['words'], force=True)
        elif op['tag'] in obj.pos_dict:
            obj.remove_words(op['tag'], None if op['op'] == 'pop' else op['words'])

    def view(self, obj):
        words = sorted({w for ws in obj.pos_dict.values() for w in ws})
        return canon([{t: set(w) for t, w in obj.pos_dict.items()}, obj.max_length,
                      [[w, sorted(obj.get_pos(w))] for w in words]])


class PatternSubject(Subject):
    name = 'EojeolPatternTrainer'

    def malformed(self, data, how, where):
        lines = data.decode('utf-8').split('\n')
        items = [i for i, l in enumerate(lines) if l.startswith('  - ')]
        if how % 5 == 0:
            lines[0] = ' '.join(lines[0].split()[:3])
        elif how % 5 == 1:
            lines[0] = lines[0].replace(' ', ' x', 1)
        elif how % 5 == 2:
            lines.pop(1)
        elif not items:
            return None
        else:
            i = items[int(where * len(items)) % len(items)]
            lines[i] = lines[i] + 'x' if how % 5 == 3 else lines[i].rsplit(': ', 1)[0]
        return '\n'.join(lines).encode('utf-8')

    poison_key = 'sents'

    def gen(self, rng):
        return {'sents': _sents(rng) or ['가'],
                'kw': {'max_left_length': rng.choice([3, 10]), 'max_right_length': rng.choice([2, 6]),
                       'min_frequency': rng.choice([1, 1, 2]), 'verbose': rng.random() < 0.5}}

    def blank(self):
        from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
        return EojeolPatternTrainer(max_left_length=4, max_right_length=4, min_frequency=99, verbose=False)

    def build(self, data):
        from soynlp.tokenizer._tokenizer_builder import EojeolPatternTrainer
        t = EojeolPatternTrainer(**data['kw'])
        t.train(data['sents'] or ['가'])
        return t

    def gen_op(self, rng):
        return {'sents': self.gen(rng)['sents']}

    def mutate(self, obj, op):
        if op['sents']:
            obj.train(op['sents'])

    def view(self, obj):
        if obj.lrgraph is None:
            return canon([obj.max_left_length, obj.max_right_length, obj.min_frequency, obj.verbose, None, None])
        return canon([obj.max_left_length, obj.max_right_length, obj.min_frequency, obj.verbose,
                      obj.lrgraph, obj.rlgraph])


class SortSubject(Subject):
    """sort_by_alphabet rewrites a file in place"""
    name = 'sort_by_alphabet'
    can_load = False

    def gen(self, rng):
        lines = _sents(rng, 1, 12) + rng.choice([[], [], ['b a', 'B a', 'a  b'], ['가', '가나', '각', 'ㄱ']])
        lines += [rng.choice(lines) for _ in range(rng.choice([0, 0, 1, 3]))]       # lines which occur again stay
        rng.shuffle(lines)
        return {'lines': [rng.choice(['', ' ', '\t']) + l + rng.choice(['', ' ', '\n']) for l in lines]}

    def build(self, data):
        return data

    def text(self, data):
        return ''.join(l + '\n' for l in data['lines'])

    def save(self, obj, path):
        from soynlp.utils.utils import sort_by_alphabet
        sort_by_alphabet(path)

    def sorted_text(self, data):
        lines = [l.strip() for l in self.text(data).split('\n')]
        return ''.join(l + '\n' for l in sorted(l for l in lines if l))

    def view(self, data):
        return ['text', self.sorted_text(data)]

    def file_view(self, path):
        with open(path, encoding='utf-8') as f:
            return ['text', f.read()]


SUBJECTS = {s.name: s for s in (EojeolCounterSubject(), LRGraphSubject(), WordExtractorSubject(), VocabSubject(),
                                MatrixSubject(), DictionarySubject(), PatternSubject(), SortSubject())}
LOADABLE = [n for n, s in SUBJECTS.items() if s.can_load]


def dumps(x):
    return json.dumps(x, ensure_ascii=True, sort_keys=True)
