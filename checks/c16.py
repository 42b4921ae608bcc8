"""C16: extracted nouns, their frequencies and their scores are those which the trained corpus gives, through every history of
trainings, extractions, interruptions and log file errors. The oracle keeps its own counts, and follows the rules on them."""
import math
import os

from sim import gen, sched, simio
from sim.kernel import Inapplicable, Violation

from .c05 import steps_of, writes_of
from .c12 import close
from .c13 import dry
from .korean import normalized
from .maxscore import the_max
from .trainables import FaultyCorpus, corpus_of


# ------------------------------------------------------------------ model

class Graph:
    """counts of (l, r)"""

    def __init__(self, lr=None):
        self.lr = {l: dict(d) for l, d in (lr or {}).items()}

    def copy(self):
        return Graph(self.lr)

    def add(self, l, r, n):
        d = self.lr.setdefault(l, {})
        d[r] = d.get(r, 0) + n

    def remove(self, eojeol, n):
        for i in range(1, len(eojeol) + 1):
            d = self.lr.get(eojeol[:i], {})
            if eojeol[i:] in d:
                d[eojeol[i:]] -= n
                if d[eojeol[i:]] <= 0:
                    del d[eojeol[i:]]
                    if not d:
                        del self.lr[eojeol[:i]]

    def r_of(self, l):
        return dict(self.lr.get(l, {}))

    def followed_by(self, features):
        return {l for l, d in self.lr.items() if any(r and r in features for r in d)}


def counter_of(sents, longest, least=1):
    counts = {}
    for s in sents:
        for w in s.split():
            if len(w) <= longest:
                counts[w] = counts.get(w, 0) + 1
    return {w: n for w, n in counts.items() if n >= least}


def graph_of_counts(counts, ml, mr):
    g = Graph()
    for w, n in counts.items():
        for e in range(1, len(w) + 1):
            if e <= ml and len(w) - e <= mr:
                g.add(w[:e], w[e:], n)
    return g


def suffixes(word, r):
    """Longer ends of word + r than r"""
    return [word[e:] + r for e in range(len(word))]


class V1:
    def __init__(self, config, coefficient):
        self.c, self.coef, self.graph = config, coefficient, None

    def train(self, sents, least):
        words = [w for s in sents for w in (s if self.c['ensure_normalized'] else normalized(s)).split()]
        ls, rs = {}, {}
        for w in words:
            for e in range(1, len(w) + 1):
                if e <= self.c['max_left_length']:
                    ls[w[:e]] = ls.get(w[:e], 0) + 1
                if e < len(w) and len(w) - e < self.c['max_right_length']:
                    rs[w[e:]] = rs.get(w[e:], 0) + 1
        self.counts = {w: n for w, n in ls.items() if n >= least}
        rs = {w for w, n in rs.items() if n >= least}
        self.graph = Graph()
        for w in words:
            for e in range(1, len(w) + 1):
                if w[:e] in self.counts and (e == len(w) or w[e:] in rs):
                    self.graph.add(w[:e], w[e:], 1)

    def predict(self, word):
        features = {r: n for r, n in self.graph.r_of(word).items() if r}
        if len(features) <= self.c['min_num_of_features']:
            return 0.0, 0
        used = {r: n for r, n in features.items() if r in self.coef and not any(x in self.coef for x in suffixes(word, r))}
        norm = sum(used.values())
        all_ = norm + sum(n for r, n in features.items() if r not in self.coef)
        return (sum(n * self.coef[r] for r, n in used.items()) / norm if norm else 0, norm / all_ if all_ else 0)

    def extract(self, xargs, candidates):
        least = xargs['min_noun_score']
        scores = {w: self.predict(w) for w in (candidates or self.counts) if len(w) > 1}
        nouns = {w: s for w, s in scores.items() if s[0] >= least}

        def cohesion(w):
            base = self.counts.get(w[0], 0)
            return math.pow(self.counts.get(w, 0) / base, 1 / (len(w) - 1)) if base and len(w) > 1 else 0
        kept = {}
        for w, s in nouns.items():
            if w[-1] in '.,':
                continue
            if len(w) > 2 and cohesion(w) < cohesion(w[:-1]) and any(
                    w[:e] in nouns and self.coef.get(w[e:], 0.0) > least for e in range(2, len(w))):
                continue
            kept[w] = s
        g, out = self.graph.copy(), {}
        for w in sorted(kept, key=len, reverse=True):
            rs = g.r_of(w)
            out[w] = (sum(rs.values()),) + kept[w]
            for r, n in rs.items():
                g.remove(w + r, n)
        return out


class V2:
    def __init__(self, config, pos, neg):
        self.c = config
        self.common = pos & neg
        self.pos, self.neg = pos - self.common, neg - self.common
        self.origin = self.graph = None

    def train(self, counts, total=None):
        self.train_graph(graph_of_counts(counts, self.c['max_left_length'], self.c['max_right_length']), sum(counts.values()))

    def train_graph(self, g, total):
        self.origin, self.graph, self.total, self.covered = g.copy(), g.copy(), total, 0

    def counts(self, word):
        pos = common = neg = unk = end = 0
        features = {}
        for r, n in self.graph.r_of(word).items():
            longer_pos = any(x in self.pos for x in suffixes(word, r))
            longer_neg = any(x in self.neg for x in suffixes(word, r))
            if (r in self.pos and not longer_pos) or (r in self.neg and not longer_neg):
                features[r] = n
            if r == '':
                end += n
            elif longer_pos or longer_neg:
                continue
            elif r in self.common:
                common += n
            elif r in self.pos:
                pos += n
            elif r in self.neg:
                neg += n
            else:
                unk += n
        return pos, common, neg, unk, end, features

    def predict(self, word, least):
        pos, common, neg, unk, end, features = self.counts(word)
        score = (pos - neg) / (pos + neg) if pos + neg else 0
        support = (pos if score >= least else neg) + end + common
        if len(features) > self.c['min_num_of_features']:
            return support, score
        total = pos + common + neg + unk + end
        if not total:
            return support, 0
        if end > self.c['max_frequency_when_noun_is_eojeol'] and pos >= neg:
            return support, score
        known = pos + common + end
        if (common > 0 or pos > 0) and end / total >= 0.3 and common >= neg:
            return known, known / total
        first = set()
        for r in self.graph.r_of(word):
            if r and (r not in self.pos | self.common or not any(x in self.pos for x in suffixes(word, r))):
                first.add(r[0])
        if len(first) >= 2:
            return known, known / total
        return support, 0

    def batch(self, candidates, least):
        scores = {}
        for w in sorted(candidates, key=len, reverse=True):
            scores[w] = self.predict(w, least)
            if scores[w][1] >= least:
                for r, n in self.graph.r_of(w).items():
                    self.graph.remove(w + r, n)
        return scores

    def parts(self, decomposer, word):
        """Noun+ or Noun+ and positive feature"""
        tokens = the_max(decomposer, 0.0, 10, word)
        if any(t[3] <= 0 for t in tokens[:-1]):
            return None
        if len(tokens) >= 3 and tokens[-1][0] in self.pos:
            return tuple(t[0] for t in tokens[:-1])
        return tuple(t[0] for t in tokens) if tokens[-1][3] > 0 else None

    def compounds(self, scores, least):
        single = {w: len(w) for w, s in scores.items() if s[1] > least and len(w) > 1}
        self.decomposer = single
        found, self.components = {}, {}
        for w, rs in self.origin.lr.items():
            parts = self.parts(self.decomposer, w) if len(w) >= 4 and w not in single else None
            if parts:
                noun = ''.join(parts)
                self.components[noun] = parts
                n = found.get(noun, (0, 0))[0] + rs.get('', 0)
                found[noun] = n, max(scores.get(t, (0, 0))[1] for t in parts)
                self.graph.remove(w, 1)
        return found

    def extract(self, xargs, logs=None):
        josaset, suffixset = resource('frequent_enrolled_josa.txt', 'noun'), resource('frequent_noun_suffix.txt', 'noun')
        least = xargs['min_noun_score']
        scores = self.batch(self.graph.followed_by(self.pos), least)
        compounds = self.compounds(scores, least) if self.c['extract_compound'] else {}
        nouns = {w: s for w, s in scores.items() if s[1] >= least}
        nouns.update(compounds)
        nouns = {w: s for w, s in nouns.items() if s[0] >= xargs['min_noun_frequency']}
        post = self.c['postprocessing'] or ['detaching_features', 'ignore_features', 'ignore_NJ']
        removed = []
        for method in [post] if isinstance(post, str) else post:
            if method == 'detaching_features':
                out = {w for w in nouns if any(w[:e] in nouns and w[e:] in self.pos for e in range(2, len(w) - 1))}
            elif method == 'ignore_features':
                out = {w for w in nouns if w in self.pos | self.common}
            else:
                out = {w for w in nouns if any(
                    w[i:] in josaset - suffixset and w[:i] in nouns and nouns[w][0] < nouns[w[:i]][0]
                    and sum(r in josaset for r in self.origin.lr.get(w[:i], {})) >= 5 for i in range(2, len(w)))}
            removed.append(out)
            nouns = {w: s for w, s in nouns.items() if w not in out}
        self.graph, self.covered = self.origin.copy(), 0
        for w in sorted(self.graph.followed_by(self.pos), key=len, reverse=True):
            if w in nouns:
                for r, n in self.graph.r_of(w).items():
                    if len(w) > 1 or r == '' or r in self.pos | self.common:
                        self.graph.remove(w + r, n)
                        self.covered += n
        if xargs['reset_lrgraph']:
            self.graph = self.origin.copy()
        return nouns, scores, removed

    def domain(self, a):
        """Positive features of this corpus"""
        scores = self.batch(self.graph.followed_by(self.pos), a['min_noun_score'])
        self.graph = self.origin.copy()
        nouns = {w for w, s in scores.items() if s[1] >= a['min_noun_score'] and s[0] >= a['min_noun_frequency']}
        counts = {}
        for w in nouns:
            for r, n in self.graph.r_of(w).items():
                if r not in self.pos:
                    counts[r] = counts.get(r, 0) + n
        found = {}
        known = set(self.pos)
        for r in sorted(counts, key=len):
            if counts[r] < a['min_pos_feature_frequency'] or r in nouns or r == '':
                continue
            ls = {l: d[r] for l, d in self.graph.lr.items() if r in d and len(l) > 1}
            last = {}
            for l, n in ls.items():
                last[l[-1]] = last.get(l[-1], 0) + n
            if len(last) < a['min_num_of_unique_lastchar'] or entropy(last.values()) < a['min_entropy_of_lastchar']:
                continue
            pos = neg = unk = 0
            i = next((i for i in range(1, len(r)) if r[:i] in nouns), None)
            for l, n in ls.items():
                if i is not None and r[i:] in known:
                    neg += n
                elif any(l + r[:k] in nouns for k in range(1, len(r) + 1)):
                    neg += n
                elif l in nouns:
                    pos += n
                else:
                    unk += n
            score = (pos - neg) / (pos + neg) if pos + neg else 0
            freq = pos if score >= a['min_pos_score'] else neg + unk
            if freq < a['min_pos_feature_frequency']:
                score = 0
            if score >= a['min_pos_score'] and freq >= a['min_pos_feature_frequency'] and \
                    entropy([n for l, n in ls.items() if l in nouns]) >= a['min_noun_entropy']:
                found[r] = score, freq
                known.add(r)
        if a['append_extracted_features']:
            # features which are negative, too, become common as well
            both = {r for r in found if r in self.neg}
            self.pos |= set(found) - both
            self.common |= both
        return found


def entropy(counts):
    counts = list(counts)
    n = sum(counts)
    return -sum(c / n * math.log(c / n) for c in counts) if counts else 0.0


class News:
    def __init__(self, config, scores, base, verbs):
        self.c, self.scores, self.base, self.verbs, self.graph = config, scores, base, verbs, None

    def train(self, sents):
        self.eojeols = counter_of(sents, self.c['max_left_length'] + self.c['max_right_length'])
        self.graph = graph_of_counts(self.eojeols, self.c['max_left_length'], self.c['max_right_length'])

    def count(self, l):
        return sum(self.graph.lr.get(l, {}).values())

    def predict(self, l):
        rs = self.graph.r_of(l)
        known = {r: n for r, n in rs.items() if r in self.scores}
        norm, total, alone = sum(known.values()), sum(rs.values()), self.eojeols.get(l, 0)
        positive = sum(self.scores[r] > 0 for r in known)
        return (sum(n * self.scores[r] for r, n in known.items()) / norm if norm else 0, total,
                norm / (total - alone) if total > alone else 0, alone / total if total else 0, positive, positive / len(known) if known else 0)

    def extract(self, xargs, candidates):
        """The rules, in the order of the words of the corpus -> {noun: scores}"""
        least, often, proportion = xargs['min_noun_score'], xargs['min_frequency'], xargs['min_feature_proportion']
        lr, count, predict = self.graph.lr, self.count, self.predict
        josas = {r for r, s in self.scores.items() if s > 0.1} | {'는'}

        def mostly_alone(w, share, strict=False):
            n = count(w)
            return n > 0 and (min(1, self.eojeols.get(w, 0) / n) > share if strict else self.eojeols.get(w, 0) / n >= share)
        eojeols = [l for l in lr if count(l) >= often and mostly_alone(l, 0.99)]
        words = set(self.base)
        for l in eojeols:
            cuts = [e for e in range(2, len(l) - 1) if predict(l[:e])[0] >= 0.4 and l[e:] in self.verbs]
            words.update(l[:e] for e in cuts[:1])
        scored = {}
        for l in candidates or [l for l in lr if len(l) >= 2]:
            if count(l) >= often and l not in self.scores and len(l) > 1:
                x = predict(l)
                if x[0] > least and x[2] > proportion:
                    scored[l] = x
        chosen = set()

        def noun(w):
            return w in scored or w in words

        def with_end_of_noun(l):            # NJsub + J
            ends = [e for e in range(2, len(l)) if l[:e] in words or predict(l[:e])[0] > 0.4]
            if not ends or not count(l[:ends[-1]]) or count(l) / count(l[:ends[-1]]) > 0.7:
                return False
            n = sum(c for r, c in lr.get(l, {}).items() if any((l + r)[e:] in josas for e in ends))
            return n / count(l) > 0.8

        def with_end_of_verb(l):            # NVsub + E
            for b in (1, 2) if len(l) > 3 else (1,):
                if l[:-b] in scored and l[:-b] in words and \
                        sum(c for r, c in lr[l].items() if mostly_alone(l[-b:] + r, 0.7, True)) / count(l) > 0.7:
                    return True
            return False

        def rare_after_noun(l):
            return any(noun(l[:-b]) and (count(l) / count(l[:-b]) if count(l[:-b]) else 0) < 0.1 for b in ((1, 2) if len(l) > 3 else (1,)))

        def compound(l):
            n = len(l)
            if any(noun(l[:e]) and noun(l[e:]) for e in range(2, n)) and n >= 4:
                return True
            return any(noun(l[:d]) and noun(l[d:e]) and noun(l[e:]) for d in range(2, n - 3) for e in range(d + 2, n - 1))

        def noun_josa(w):
            return any(noun(w[:e]) and (e == len(w) or self.scores.get(w[e:], 0) > 0) for e in range(2, len(w) + 1))

        def many_josas(l):
            if scored[l][1] > 10 or scored[l][4] > 1:
                return True
            after = {r: c for r, c in lr.get(l, {}).items() if r}
            fine = sum(c for r, c in after.items() if r[:2] in PASS or noun_josa(r))
            return bool(after) and fine / sum(after.values()) > 0.5

        def no_dang_hada(l):
            if l[-1] != '당' and noun(l[:-1]):
                return True
            h = sum(c for r, c in lr.get(l, {}).items() if r and (r[0] == 'ㅎ' or '가' <= r[0] <= '힣' and (ord(r[0]) - ord('가')) // 588 == 18))
            return not count(l) or h / count(l) < 0.5

        def fine_end(l):
            def share(*rs):
                return sum(lr.get(l, {}).get(r, 0) / count(l) for r in rs) if count(l) else 0
            if l in self.verbs or l[-2:] in ('갔다', '이는', '겠지', '보는') or l[-1] == '으' and share('로', '로써', '로만', '로의') > 0.5 \
                    or l[-1] == '지' and share('만') > 0.5 or l[-1] == '없' and share('는', '이', '다', '었다') > 0.5:
                return False
            if l[-1] in '인은의와과' or l[-2:] in ('들이', '들은', '들도', '들을'):
                if (count(l) / count(l[:-1]) if count(l[:-1]) else 0) < 0.8:
                    return False
            return not (l[-2:] == '으로' and (len(l) == 3 or l[:-2] in words or l[:-2] in chosen))
        ended = {l for l in scored if with_end_of_noun(l)}
        before_josa = {l[:e] for l in scored if l not in ended for e in range(2, len(l))
                       if l[e:] in josas and predict(l[:e])[0] > 0.7 and count(l[:e]) / count(l) > 0.7}
        verbal = {l for l in scored if with_end_of_verb(l) and rare_after_noun(l) and not compound(l)}
        for l in scored:
            if l not in ended | before_josa | verbal and (many_josas(l) or compound(l)) and fine_end(l) and no_dang_hada(l):
                chosen.add(l)
        for l in eojeols:
            if l in chosen or with_end_of_noun(l) or noun_josa(l) or any((l[:e] in chosen or l[:e] in words) and l[e:] in self.verbs for e in range(2, len(l))):
                continue
            if fine_end(l) and compound(l):
                words.add(l)
        return {w: predict(w) for w in words | chosen}


PASS = set('과 는 되고 되는 되다 된다 들 들에 들의 들이 로 로는 로도 로서 를 부터 뿐 뿐만 뿐이 뿐인 에게 에도 에서 에와 와 으로 으로의 은 의 이 이나 이라 이었 인 임 처럼 '
           '하다 한 할 했던 했고 했다'.split())


# ------------------------------------------------------------------ plan

def features_of(rng, v, corpora):
    """Ends of words, as features of a predictor"""
    ends = sorted({w[-i:] for c in corpora for s in c for w in s.split() for i in (1, 2, 3) if len(w) > i})
    return rng.sample(ends, min(len(ends), rng.randint(2, 12)))


def josa_corpus(rng, v):
    """Nouns with many josas, and with one josa after another"""
    josas = rng.sample(['은', '는', '이', '가', '을', '를', '에', '의', '도', '로', '과', '와', '만', '까지', '부터', '에게', '라도', '마다'], 9)
    out = []
    for noun in rng.sample(v['nouns'], 2):
        if rng.random() < 0.3:
            # noun and josa stand as often as the noun alone, or once more or less
            others, n = josas[1:rng.randint(5, 9)], rng.choice([1, 2])
            out += [noun + j for j in others] * n
            ends = rng.sample(josas, rng.randint(2, 5))
            out += [noun + josas[0] + ends[i % len(ends)] for i in range(len(others) * n + rng.choice([0, 0, 0, -1, 1]))]
            continue
        n = rng.randint(3, 9)
        for j in josas[:n]:
            out += [noun + j] * rng.randint(1, 3)
        for j in rng.sample(josas, 2):
            out += [noun + j + k for k in rng.sample(josas, rng.randint(0, 4))] + [noun + j] * rng.randint(0, 3)
        out += [noun] * rng.randint(0, 3)
    rng.shuffle(out)
    return [' '.join(out[i:i + 5]) for i in range(0, len(out), 5)]


def compound_corpus(rng, v):
    """Nouns of different scores and compounds of two to four of them, with josas or without"""
    josas, others = rng.sample(['은', '는', '이', '가', '을', '를', '에', '의', '도'], 6), ['냐', '렴', '듯', '셔', '던', '며']
    nouns = rng.sample(['바람', '구름', '사과', '나무', '가나', '다라마', '은행', '가나다'] + v['nouns'][:4], rng.randint(2, 5))
    out = []
    for noun in nouns:
        out += [noun + j for j in josas[:rng.randint(2, 6)] for _ in range(rng.choice([1, 1, 2]))] + rng.choice([[], [noun] * rng.randint(1, 3)])
        out += [noun + e for e in rng.sample(others, rng.choice([0, 0, 1, 2, 3]))]
    for _ in range(rng.randint(1, 5)):
        w = ''.join(rng.choice(nouns) for _ in range(rng.choice([2, 2, 3, 3, 4])))
        out += [w] * rng.randint(0, 4) + [w + j for j in rng.sample(josas, rng.choice([0, 0, 1, 2]))]
    rng.shuffle(out)
    return [' '.join(out[i:i + 6]) for i in range(0, len(out), 6)]


RULED = {'으': ['로', '로써', '로만', '로의', '로'], '지': ['만', '만', '를'], '없': ['는', '이', '다', '었다', '었다'], '당': ['했다', '한', '하다', '했던', '하고'],
         '들이': ['를', '다'], '들은': ['는', '도'], '들도': ['이', '는'], '들을': ['로', '이'], '인': ['은', '이'], '은': ['이', '는'], '의': ['는', '를'],
         '와': ['는', '를'], '과': ['은', '을'], '으로': ['는', '도'], '이는': ['이', '은'], '갔다': ['는'], '대': ['로', '는']}
JOSAS = ['은', '는', '이', '가', '을', '를', '에', '의', '도', '로']


def ruled_corpus(rng, v):
    """Words which are about to break one of the rules of news articles"""
    out = []
    for _ in range(rng.randint(1, 3)):
        noun = rng.choice(v['nouns'])
        many = rng.choice([1, 1, 2, 3])
        for j in rng.sample(JOSAS, rng.randint(1, 5)):
            out += [noun + j] * rng.choice([1, 2, many, 5 * many])
        out += [noun] * rng.choice([0, 0, 1, 3])
        if rng.random() < 0.75:
            end = rng.choice(list(RULED))
            after = [r for r in RULED[end] if rng.random() < 0.7] + rng.sample(JOSAS, rng.choice([0, 0, 1, 2]))
            for r in after:
                out += [noun + end + r] * rng.choice([1, 1, 2, 4])
                out += [end + r] * rng.choice([0, 0, 1, 3])
                if rng.random() < 0.2:
                    out.append(end + r + rng.choice(JOSAS))
            out += [noun + end] * rng.choice([0, 0, 0, 1, 2])
        else:
            other = rng.choice(v['nouns'])
            for j in rng.sample(JOSAS, rng.randint(1, 3)):
                out += [noun + other + j] * rng.choice([1, 2, 4])
    rng.shuffle(out)
    return [' '.join(out[i:i + 5]) for i in range(0, len(out), 5)]


def news_corpus(rng, v):
    """Nouns and compounds with the ends which rules of news articles are about"""
    nouns = rng.sample(v['nouns'], min(len(v['nouns']), rng.randint(2, 4)))
    ends = ['으로', '으로써', '으로의', '으', '지만', '지', '없는', '없다', '없이', '인데', '인', '은', '의', '와', '과', '들이', '들은', '들을', '들도', '들', '당한', '당했다', '당',
            '하다', '했다', '하는', '대', '로', '를', '이', '가', '에서', '에게', '', '', '', '가다', '먹다', '되다', '이는', '갔다', '보는', '한', '임', '처럼', '까지', '는']
    ends = rng.sample(ends, rng.randint(4, 14))
    if rng.random() < 0.6:
        nouns += [rng.choice(nouns) + rng.choice(nouns) + (rng.choice(nouns) if rng.random() < 0.3 else '') for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.6:
        nouns.append(rng.choice(nouns) + rng.choice(ends))
    out = [w for w in nouns + [rng.choice(nouns) + rng.choice(ends) + rng.choice(['', rng.choice(ends)]) for _ in range(rng.randint(8, 40))]
           for _ in range(rng.choice([1, 1, 2, 4, 11]))]
    rng.shuffle(out)
    return [' '.join(out[i:i + 5]) for i in range(0, len(out), 5)]


def gen_plan(rng, index, tier):
    kind = ['v2', 'v1', 'v2', 'news', 'v2', 'v1', 'news'][index % 7]
    v = gen.vocabulary(rng)
    corpora = []
    for _ in range(3):
        x = rng.random()
        if kind == 'v2' and rng.random() < 0.25:
            corpora.append(compound_corpus(rng, v))
        elif x < (0.45 if kind != 'news' else 0.2):
            corpora.append(gen.corpus(rng, 3, 40, v))
        elif x < (0.6 if kind != 'news' else 0.85):
            corpora.append(rng.choice([news_corpus, ruled_corpus])(rng, v) if kind == 'news' else josa_corpus(rng, v))
        else:
            alphabet = rng.choice(['가나', '가나다', '가나다라은', 'ab가'] + ['가나.', '가나은,', '가은.'] * (kind == 'v1'))
            corpora.append([' '.join(gen.small_token(rng, alphabet, 1, rng.choice([3, 5, 13])) for _ in range(rng.randint(1, 8)))
                            for _ in range(rng.randint(2, 30))])
    if kind == 'v2' and rng.random() < 0.3:
        # three of ten eojeols are the word itself
        c = rng.choice(corpora)
        for _ in range(rng.randint(1, 3)):
            w, some, n = gen.small_token(rng, '가나다라마바사', 2, 3), rng.sample(v['josas'], min(2, len(v['josas']))), rng.choice([1, 1, 2])
            c.append(' '.join([w] * 3 * n + [w + rng.choice(some) for _ in range(7 * n)]))
    config = {'max_left_length': rng.choice([4, 10, 10]), 'max_right_length': rng.choice([2, 5, 9]), 'verbose': rng.random() < 0.4}
    if kind != 'news':
        config['ensure_normalized'] = rng.random() < (0.25 if kind == 'v2' else 0.4)
        config['min_num_of_features'] = rng.choice([0, 1, 1, 1, 2])
    features = None
    if rng.random() < 0.65:
        some = features_of(rng, v, corpora)
        if kind == 'v2':
            pos = [r for r in some if rng.random() < 0.7]
            features = {'pos': pos, 'neg': [r for r in some if r not in pos or rng.random() < 0.15], 'pos2': features_of(rng, v, corpora)[:3] if rng.random() < 0.2 else None}
        else:
            features = [[r, rng.choice([-1.0, -0.5, 0.25, 0.5, 1.0, 1.0, 0.0])] for r in some]
            if kind == 'news' and rng.random() < 0.6:
                features += [[r, 1.0] for r in JOSAS + sorted({r for rs in RULED.values() for r in rs}) if rng.random() < 0.8]
    if kind == 'v2':
        config.update(max_frequency_when_noun_is_eojeol=rng.choice([0, 1, 2, 30]), extract_compound=rng.random() < 0.8,
                      postprocessing=rng.choice([None, None, None, 'ignore_features', ['ignore_NJ'], ['ignore_NJ', 'detaching_features'], 'detaching_features']),
                      eojeol_counter_filtering_checkpoint=rng.choice([0, 500000]))
    if kind == 'news':
        config['base_noun_dictionary'] = rng.sample(v['nouns'], rng.choice([2, 2, len(v['nouns'])])) if rng.random() < 0.5 else None
    words = sorted({w[:i] for c in corpora for s in c for w in s.split() for i in range(2, len(w) + 1)})
    ops = []
    for _ in range(rng.randint(3, 9)):
        op = {'op': rng.choices(['train', 'extract', 'fail', 'train-extract', 'domain'], [3, 5, 4, 1, 2 if kind == 'v2' else 0])[0],
              'corpus': rng.randint(0, 2), 'form': rng.choice(['list', 'iter', 'file']), 'where': rng.random()}
        op['what'] = rng.choice(['train', 'extract', 'extract'] + ['domain'] * (kind == 'v2'))
        op['how'] = rng.choice(['corpus', 'line', 'line', 'stdout', 'log'])
        op['io'] = rng.choice(['openw', 'write', 'close'])
        op['targs'] = {'v1': {'min_noun_frequency': rng.choice([1, 1, 2, 3])}, 'v2': {'min_eojeol_frequency': rng.choice([1, 1, 1, 2])}, 'news': {}}[kind]
        op['input'] = rng.choice(['sents', 'sents', 'sents', 'counter', 'graph']) if kind == 'v2' and op['op'] == 'train' else 'sents'
        op['xargs'] = {'min_noun_score': rng.choice([0.25, 0.31, 0.5, 0.5, 0.0] if kind != 'news' else [0.25, 0.4, 0.5])}
        if kind == 'v2':
            op['xargs'].update(min_noun_frequency=rng.choice([1, 1, 2, 4]), reset_lrgraph=rng.random() < 0.8)
            op['domain'] = {'min_noun_score': rng.choice([0.0, 0.25]), 'min_noun_frequency': rng.choice([1, 2]), 'min_pos_score': rng.choice([0.0, 0.25]),
                            'min_pos_feature_frequency': rng.choice([1, 2, 3]), 'min_num_of_unique_lastchar': rng.choice([1, 2]),
                            'min_entropy_of_lastchar': rng.choice([0.0, 0.123]), 'min_noun_entropy': rng.choice([0.0, 0.456]),
                            'append_extracted_features': rng.random() < 0.7}
        elif kind == 'v1':
            op['xargs']['min_noun_frequency'] = 1
        else:
            op['xargs'].update(min_frequency=rng.choice([1, 1, 2, 3]), min_feature_proportion=rng.choice([0.6, 0.0, 0.0, 0.3]))
        op['candidates'] = rng.sample(words, min(len(words), 8)) if kind != 'v2' and rng.random() < 0.2 else None
        ops.append(op)
    omit = rng.random() < 0.3
    if omit:
        # some parameters have the documented values; they are not passed
        for args, where in [(config, 'init')] + [(op[k], k) for op in ops for k in ('targs', 'xargs', 'domain') if k in op]:
            for k, value in DEFAULTS[kind][where].items():
                if k in args and rng.random() < 0.6:
                    args[k] = value
    return gen.make_large({'omit': omit, 'kind': kind, 'corpora': corpora, 'config': config, 'features': features, 'ops': ops, 'log': kind == 'v2' and rng.random() < 0.5, 'rchunk': rng.choice([0, 0, 7])}, index, 53, (1200, 3500), 2, ('train', 'extract'))


# ------------------------------------------------------------------ run

DEFAULTS = {
    'v1': {'init': {'max_left_length': 10, 'max_right_length': 7, 'verbose': True, 'ensure_normalized': False, 'min_num_of_features': 1},
           'targs': {'min_noun_frequency': 5}, 'xargs': {'min_noun_score': 0.5}, 'domain': {}},
    'v2': {'init': {'max_left_length': 10, 'max_right_length': 9, 'verbose': True, 'ensure_normalized': False, 'min_num_of_features': 1, 'max_frequency_when_noun_is_eojeol': 30,
                    'eojeol_counter_filtering_checkpoint': 500000, 'extract_compound': True, 'postprocessing': None},
           'targs': {'min_eojeol_frequency': 1}, 'xargs': {'min_noun_score': 0.3, 'min_noun_frequency': 1, 'reset_lrgraph': True},
           'domain': {'append_extracted_features': True, 'min_noun_score': 0.3, 'min_pos_score': 0.3, 'min_num_of_unique_lastchar': 4,
                      'min_entropy_of_lastchar': 0.5}},
    'news': {'init': {'max_left_length': 10, 'max_right_length': 7, 'verbose': True, 'base_noun_dictionary': None},
             'targs': {}, 'xargs': {'min_noun_score': 0.4, 'min_frequency': 3, 'min_feature_proportion': 0.6}, 'domain': {}},
}


def given(plan, where, args):
    if not plan['omit']:
        return args
    defaults = DEFAULTS[plan['kind']][where]
    return {k: v for k, v in args.items() if k not in defaults or defaults[k] != v}


def make(plan, root):
    from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor
    kind, config, features = plan['kind'], dict(plan['config']), plan['features']
    if kind == 'v2':
        headers = None
        if features:
            headers = []
            for k in ('', '2') if features['pos2'] else ('',):
                header = os.path.join(root, 'predictor' + k)
                headers.append(header)
                for side in ('pos', 'neg'):
                    with open(header + '_' + side, 'w', encoding='utf-8') as f:
                        f.write(''.join(r + '\n' for r in (features['pos2'] if k and side == 'pos' else [] if k else features[side])))
            pos, neg = set(features['pos']) | set(features['pos2'] or []), set(features['neg'])
        else:
            pos, neg = (resource('noun_predictor_ver2_' + side) for side in ('pos', 'neg'))
        logpath = os.path.join(root, 'log') if plan['log'] else None
        simio.arm([root], rchunk=plan['rchunk'])
        x = LRNounExtractor_v2(predictor_headers=headers, logpath=logpath, **given(plan, 'init', config))
        simio.disarm()
        return x, V2(config, pos, neg)
    scores = {}
    if features:
        path = os.path.join(root, 'predictor')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(''.join('{}\t{}\n'.format(r, s) for r, s in features))
        lines = features
        paths = [path]
    else:
        paths, lines = None, [line.split('\t') for line in resource('noun_predictor_sejong')]
    for r, s in lines:
        scores[r] = max(scores.get(r, -9), float(s))
    simio.arm([root], rchunk=plan['rchunk'])
    x = (LRNounExtractor if kind == 'v1' else NewsNounExtractor)(predictor_fnames=paths, **given(plan, 'init', config))
    simio.disarm()
    if kind == 'v1':
        return x, V1(config, scores)
    verbs = {line.split('\t')[0] for f in ('Verb', 'Adjective') for line in resource(f + '.txt', 'postagger/dictionary/sejong')}
    return x, News(config, scores, set(config['base_noun_dictionary'] or []), verbs)


_resources = {}


def resource(name, where='trained_models'):
    import soynlp
    path = os.path.join(os.path.dirname(soynlp.__file__), where, name)
    if path not in _resources:
        with open(path, encoding='utf-8') as f:
            _resources[path] = [line.strip() for line in f if line.strip()]
    return set(_resources[path])


def expect_nouns(ctx, got, want, when):
    ctx.count('evaluations')
    for w in sorted(set(got) | set(want)):
        if w not in got or w not in want:
            raise Violation('nouns', 'a word is {} as a noun ({})'.format('extracted' if w in got else 'not extracted', when), word=w,
                            got=got.get(w), expected=want.get(w))
        if len(got[w]) != len(want[w]) or not all(close(a, b) for a, b in zip(got[w], want[w])):
            raise Violation('scores', 'frequency or score of a noun is not that of the corpus ({})'.format(when), word=w, got=list(got[w]), expected=list(want[w]))


def expect_graph(ctx, x, g, words, when):
    pairs = {(l, r): n for l in words for r, n in x.get_r(l, -1)}
    want = {(l, r): n for l, d in g.lr.items() for r, n in d.items()}
    back = {(l, r): n for r in {r for _, r in set(want) | set(pairs)} if r for l, n in x.get_l(r, -1)}
    for have, expected, side in ((pairs, want, 'get_r'), (back, {k: n for k, n in want.items() if k[1]}, 'get_l')):
        if have != expected:
            k = sorted(k for k in set(have) | set(expected) if have.get(k) != expected.get(k))[0]
            raise Violation('graph', 'the L-R graph of an extractor is not that of the corpus ({})'.format(when), pair=list(k), of=side, got=have.get(k), expected=expected.get(k))


def views(ctx, plan, x, m, words, when):
    ctx.count('evaluations')
    kind = plan['kind']
    if m.graph is None:
        if kind != 'news' and x.lrgraph is not None:
            raise Violation('graph', 'an extractor which was never trained has a graph ({})'.format(when))
        return
    if kind == 'news':
        if {l: dict(d) for l, d in x.lrgraph.items()} != m.graph.lr or dict(x.eojeols) != m.eojeols:
            raise Violation('graph', 'the L-R graph of an extractor is not that of the corpus ({})'.format(when))
    else:
        expect_graph(ctx, x.lrgraph, m.graph, words, when)
    for w in words:
        got, want = tuple(x.predict(w)), m.predict(w, 0.3) if kind == 'v2' else m.predict(w)
        if len(got) != len(want) or not all(close(a, b) for a, b in zip(got, want)):
            raise Violation('predict', 'the prediction of a word is not that of the corpus ({})'.format(when), word=w, got=list(got), expected=list(want))
        if kind == 'v1' and [x.is_noun(w, got[0]), x.is_noun(w, got[0] + 1e-6), x.is_noun(w)] != [True, False, got[0] >= 0.5]:
            raise Violation('is_noun', 'a word is a noun just when its score reaches the threshold; not here ({})'.format(when), word=w, score=got[0])
    if kind == 'v2':
        if (x._pos_features, x._neg_features, x._common_features) != (m.pos, m.neg, m.common):
            raise Violation('features', 'features of an extractor are not those of its predictor and its corpora ({})'.format(when))
        if x._num_of_eojeols != m.total:
            raise Violation('eojeols', 'number of eojeols of an extractor is wrong ({})'.format(when), got=x._num_of_eojeols, expected=m.total)


def sections(path):
    with open(path, encoding='utf-8') as f:
        out = []
        for line in f.read().split('\n'):
            if line.startswith('## '):
                out.append(set())
            elif line and out:
                out[-1].add(line)
    return out


def execute(plan, ctx):
    plan = gen.unfold(plan)
    kind = plan['kind']
    if len(plan['corpora']) < 3 or any(not c or not all(s.strip() for s in c) for c in plan['corpora']):
        raise Inapplicable()
    os.makedirs('d')
    root = os.path.abspath('d')
    x, m = make(plan, root)
    all_words = sorted({w[:i] for c in plan['corpora'] for s in c for w in s.split() for i in range(1, len(w) + 1)})
    if kind != 'news':
        all_words = sorted(set(all_words) | {w[:i] for c in plan['corpora'] for s in c for w in normalized(s).split() for i in range(1, len(w) + 1)})
    last = None
    for n, op in enumerate(plan['ops']):
        sents = plan['corpora'][op['corpus']]
        when = op['op']
        cpath = os.path.join(root, 'corpus{}'.format(n))

        def corpus(form=None):
            return corpus_of(form or op['form'], sents, cpath)

        def trained():
            if kind == 'v2':
                # (ensure_normalized of version 2 asks for normalising)
                sents_ = [normalized(s) for s in sents] if plan['config']['ensure_normalized'] else sents
                counts = counter_of(sents_, plan['config']['max_left_length'] + plan['config']['max_right_length'], op['targs']['min_eojeol_frequency'])
                m.train(counts)
            elif kind == 'v1':
                m.train(sents, op['targs']['min_noun_frequency'])
            else:
                m.train(sents)

        def extract_args():
            args = given(plan, 'xargs', op['xargs'])
            return dict(args, noun_candidates=op['candidates']) if kind != 'v2' and (op['candidates'] or not plan['omit']) else args

        def extracted(got):
            got = {w: tuple(s) for w, s in got.items()}
            if kind == 'v1':
                expect_nouns(ctx, got, m.extract(op['xargs'], op['candidates']), when)
            elif kind == 'news':
                expect_nouns(ctx, got, m.extract(op['xargs'], op['candidates']), when)
            else:
                nouns, scores, removed = m.extract(op['xargs'])
                expect_nouns(ctx, got, nouns, when)
                if x._num_of_covered_eojeols != m.covered:
                    raise Violation('covered', 'number of covered eojeols is wrong ({})'.format(when), got=x._num_of_covered_eojeols, expected=m.covered)
                if plan['config']['extract_compound']:
                    if x._compounds_components != m.components:
                        raise Violation('components', 'components of compounds are wrong ({})'.format(when))
                    for w in all_words[::3]:
                        if tuple(x.decompose_compound(w)) != (m.parts(m.decomposer, w) or (w,)):
                            raise Violation('decompose', 'a compound is decomposed wrongly ({})'.format(when), word=w, got=list(x.decompose_compound(w)),
                                            expected=list(m.parts(m.decomposer, w) or (w,)))
                if plan['log']:
                    with open(os.path.join(root, 'log_prediction_score.log'), encoding='utf-8') as f:
                        lines = f.read().split('\n')
                    try:
                        rows = [(r[0], float(r[1]), float(r[2])) for r in (line.split(' ') for line in lines[1:-1])]
                    except (ValueError, IndexError):
                        rows = None
                    if lines[0] != 'noun score frequency' or rows is None or sorted(rows) != sorted((w, s[1], s[0]) for w, s in scores.items()):
                        raise Violation('log', 'the log of predictions is not that of the predictions ({})'.format(when))
                    if [s for s in sections(os.path.join(root, 'log_postprocessing.log'))] != removed:
                        raise Violation('log', 'the log of the postprocessing is not what it removed ({})'.format(when))

        def do(what, c):
            if what == 'train':
                x.train(c, **given(plan, 'targs', op['targs']))
            elif what == 'extract':
                return x.extract(**extract_args())
            elif what == 'domain':
                x.extract_domain_pos_features(**given(plan, 'domain', op['domain']))
            return None

        def domained():
            found = m.domain(op['domain'])
            got = {r: tuple(s) for r, s in x._pos_features_extracted.items()}
            expect_nouns(ctx, got, found, when)

        if op['op'] in ('train', 'train-extract'):
            counts = counter_of(sents, plan['config']['max_left_length'] + plan['config']['max_right_length'])
            if op['input'] == 'counter' and kind == 'v2':
                from soynlp.utils import EojeolCounter
                x.train(EojeolCounter(sents, max_length=plan['config']['max_left_length'] + plan['config']['max_right_length']))
                m.train(counts)
            elif op['input'] == 'graph' and kind == 'v2':
                from soynlp.utils import EojeolCounter
                counter = EojeolCounter(sents, max_length=plan['config']['max_left_length'] + plan['config']['max_right_length'])
                x.train(counter.to_lrgraph(plan['config']['max_left_length'], plan['config']['max_right_length']))
                g = graph_of_counts(counts, plan['config']['max_left_length'], plan['config']['max_right_length'])
                m.train_graph(g, sum({l + r: k for l, d in g.lr.items() for r, k in d.items()}.values()))
            else:
                c = corpus()
                simio.arm([root], rchunk=plan['rchunk'])
                if op['op'] == 'train':
                    do('train', c)
                    simio.disarm()
                    trained()
                else:
                    kw = dict(extract_args(), **given(plan, 'targs', op['targs']))
                    if kind == 'v1' and 'min_noun_frequency' not in given(plan, 'targs', op['targs']):
                        del kw['min_noun_frequency']
                    got = x.train_extract(c, **kw)
                    simio.disarm()
                    trained()
                    extracted(got)
        elif m.graph is None and (op['op'] != 'fail' or op['what'] != 'train'):
            continue
        elif op['op'] == 'extract':
            extracted(do('extract', None))
        elif op['op'] == 'domain':
            do('domain', None)
            domained()
        elif op['op'] == 'fail':
            when = '{} failed: {}'.format(op['what'], op['how'])
            if op['how'] == 'corpus' and op['what'] != 'train':
                continue
            outcome, got = disturbed(ctx, plan, op, do, corpus, root)
            if outcome == 'completed':
                if op['what'] == 'train':
                    trained()
                elif op['what'] == 'extract':
                    extracted(got)
                else:
                    domained()
            elif outcome == 'interrupted' and op['what'] == 'train':
                # the old or the new model: try again
                when += ', again'
                do('train', corpus())
                trained()
            elif op['what'] == 'domain' and (x._pos_features != m.pos or x._common_features != m.common):
                # interrupted after the features were appended: nothing else may have changed
                m.domain(op['domain'])
            elif op['what'] != 'train' and kind == 'v2':
                # interrupted before it began, or everything is considered again
                try:
                    expect_graph(ctx, x.lrgraph, m.graph, all_words, when)
                except Violation:
                    m.graph = m.origin.copy()
        views(ctx, plan, x, m, all_words, when)
        ctx.state((kind, when, last, op['input'], bool(op['candidates']), bool(plan['features']), op['xargs'].get('reset_lrgraph'), m.graph is None))
        last = when
        ctx.log(n, when, sorted(m.graph.lr)[:20] if m.graph else None)
    ctx.interesting({'kind': kind, 'operations': [o['op'] for o in plan['ops']]})


def disturbed(ctx, plan, op, do, corpus, root):
    """-> (completed | failed | interrupted, value)"""
    how, what = op['how'], op['what']
    if how == 'corpus':
        c, exc = corpus('iter'), RuntimeError('injected')
        c.fault = (int(op['where'] * 2), int(op['where'] * 2 * len(c)) % len(c), exc)
        try:
            x = do(what, c)
        except RuntimeError as e:
            if e is not exc:
                raise
            ctx.fault('corpus')
            return 'failed', None
        if c.fired:
            raise Violation('swallowed', 'a failing corpus is ignored')
        return 'completed', x
    c = corpus()
    if how == 'stdout':
        writes = dry(root, lambda: writes_of(ctx, lambda: do(what, corpus())))
        if not writes:
            return 'completed', do(what, c)
        ctx.sink.fail_at = ctx.sink.writes + 1 + int(op['where'] * writes)
        try:
            do(what, c)
        except BrokenPipeError:
            ctx.fault('stdout')
            return 'interrupted', None
        finally:
            ctx.sink.fail_at = None
        raise Violation('swallowed', 'a failing output is ignored')
    if how == 'line':
        total = dry(root, lambda: steps_of(ctx, lambda: do(what, corpus())))
        s = sched.Steps(interrupt_at=1 + int(op['where'] * total), exc=KeyboardInterrupt)
        try:
            with s:
                x = do(what, c)
        except KeyboardInterrupt:
            if s.where is None:
                raise
            ctx.fault('interrupted-line')
            return 'interrupted', None
        return 'completed', x
    fault = {'ops': [op['io']], 'nth': int(op['where'] * 4), 'action': 'errno', 'arg': 'ENOSPC'}
    simio.arm([root], [fault])
    try:
        x = do(what, c)
    except OSError:
        if not simio.fired(1)[0]:
            raise
        ctx.fault('log-' + op['io'])
        return 'interrupted', None
    finally:
        fired = simio.fired(1)[0]
        simio.disarm()
    if fired:
        raise Violation('swallowed', 'an error of a log file is ignored', io=op['io'])
    return 'completed', x
