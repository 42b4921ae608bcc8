"""Generators of corpora, words and histories. Everything comes from the rng."""
import random


SYL = list('가나다라마바사아자차카타파하고노도로모보소오조초구누두루무부수우주기니디리미비시이지치강남당람방산장한국민말발실신문전정경제학생')
NOUNS = ['한국', '미국', '경찰', '학생', '대통령', '아이오아이', '너무너무너무', '신문사', '기자', '국회의원',
         '사과', '컴퓨터', '데이터', '자연어', '처리', '문장', '연구', '사람', '서울', '부산', '정부', '회사', '음악', '가수']
JOSAS = ['은', '는', '이', '가', '을', '를', '에', '에서', '의', '도', '로', '으로', '과', '와', '만', '까지', '부터', '에게', '께서', '이나', '입니다', '이다']
PREDS = ['먹었다', '먹고', '먹는다', '먹으니까', '갔다', '가고', '간다', '가니까', '했다', '하고', '한다', '하는', '합니다', '했습니다',
         '예뻤다', '예쁘다', '예쁘고', '예쁜', '깨달았다', '깨닫고', '굴러', '구르고', '더러워서', '더럽고', '좋아졌다', '좋아지고',
         '만들었다', '만들고', '만든', '들어갔다', '들어가고', '시작했다', '시작하고', '시작하는', '파랗다', '파래서', '이르렀다', '덕질하고', '덕질했다', '입니다']
ADVERBS = ['너무', '매우', '아주', '빨리', '정말', '천천히']
ODD = ['ㅋㅋㅋ', 'ㅠㅠ', 'ABC', 'abc', 'iPhone', '3.14', '-1', '2017년', '!!', '(웃음)', 'a', 'ㅎ', '가', '나', '\U0001f600', 'Aé', 'x' * 18,
       '가나다라마바사아자차카타파하거너더러머버서어저처커터', 'TV는', 'RT', ':', '-', '>', '#', 'l:r', "Bob's", 'ㅏㅏ', '앜ㅋㅋ', '쿠ㅜㅜ', '꺄르르르르르']


def syllables(rng, lo=1, hi=4, pool=None):
    pool = pool or SYL
    return ''.join(rng.choice(pool) for _ in range(rng.randint(lo, hi)))


def vocabulary(rng, korean_only=False, small=False):
    pool = rng.sample(SYL, rng.choice([3, 4, 8, 20]))
    nouns = rng.sample(NOUNS, rng.randint(2, 5)) + [syllables(rng, 2, 4, pool) for _ in range(rng.randint(2, 6))]
    josas = rng.sample(JOSAS, rng.randint(3, 9))
    preds = rng.sample(PREDS, rng.randint(3, 14))
    odd = [] if korean_only else rng.sample(ODD, rng.randint(0, 6))
    if rng.random() < 0.5 and not korean_only:
        odd += [syllables(rng, 1, 12, pool) for _ in range(3)]
    return {'nouns': nouns, 'josas': josas, 'preds': preds, 'odd': odd, 'pool': pool}


def eojeol(rng, v):
    x = rng.random()
    if x < 0.45:
        return rng.choice(v['nouns']) + rng.choice(v['josas'])
    if x < 0.55:
        return rng.choice(v['nouns'])
    if x < 0.63:
        return rng.choice(v['nouns']) + rng.choice(v['nouns']) + rng.choice([''] + v['josas'])
    if x < 0.85:
        return rng.choice(v['preds'])
    if x < 0.88:
        return rng.choice(v['nouns']) + rng.choice(v['preds'])
    if x < 0.91:
        return rng.choice(ADVERBS)
    if v['odd']:
        return rng.choice(v['odd'])
    return syllables(rng, 1, 4, v['pool'])


def sentence(rng, v, lo=1, hi=8):
    return ' '.join(eojeol(rng, v) for _ in range(rng.randint(lo, hi)))


def corpus(rng, lo=3, hi=40, v=None, korean_only=False):
    v = v or vocabulary(rng, korean_only)
    sents = [sentence(rng, v) for _ in range(rng.randint(lo, hi))]
    return odd_spaces(rng, sents) if rng.random() < 0.12 else sents


SPACES = ['\t', '\u3000', '\xa0', ' \t', '\u2009 ']


def odd_spaces(rng, sents):
    """some of the words are not separated by exactly one space"""
    spaces = rng.sample(SPACES, 2)
    return [''.join(rng.choice(spaces) if c == ' ' and rng.random() < 0.3 else c for c in s) for s in sents]


def doublespace_corpus(rng, lo=1, hi=12, v=None):
    """documents: sentences joined with two spaces"""
    v = v or vocabulary(rng)
    return ['  '.join(sentence(rng, v) for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(lo, hi))]


def small_token(rng, alphabet, lo=1, hi=7):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


def split_chunks(rng, items, n):
    """items in n consecutive chunks, some may be empty"""
    cuts = sorted(rng.randint(0, len(items)) for _ in range(n - 1))
    out, a = [], 0
    for c in cuts + [len(items)]:
        out.append(items[a:c])
        a = c
    return out


def gaps(rng, n, mean):
    """switches of a schedule: [gap, choice]"""
    return [[1 + int(rng.expovariate(1.0 / mean)), rng.randint(0, 7)] for _ in range(n)]


def enlarged(docs, n, seed):
    """n documents like these, with some more words: there are loops which do something every 500 or 1000 items"""
    r = random.Random(seed)
    tokens = sorted({w for d in docs for w in d.split()}) or ['가나']
    new, out = [], []
    for _ in range(n):
        d = r.choice(docs)
        x = r.random()
        if x < 0.3:
            d += ' ' + r.choice(tokens)
        elif x < 0.9:
            for _ in range(r.randint(1, 4)):
                end = r.choice(tokens)[-r.randint(1, 3):] if r.random() < 0.4 else r.choice(JOSAS)
                if new and r.random() < 0.5:
                    d += ' ' + r.choice(new) + r.choice(['', end, end])
                else:
                    new.append(r.choice([r.choice(tokens)[:r.randint(1, 3)], syllables(r, 2, 4)]) + r.choice(['', '나', '도라', r.choice(tokens)[:2]]))
                    d += ' ' + new[-1] + r.choice(['', end])
        out.append(d.strip())
    return out


def make_large(plan, index, every, sizes, n_ops=3, wanted=()):
    """Every so many runs: few operations, on a large corpus. Part of the plan are only its size and its seed"""
    if index % every != every // 2:
        return plan
    r = random.Random(index)
    which = r.randrange(len(plan['corpora']))
    plan['large'] = [which, r.randint(*sizes), index]
    plan['ops'] = plan['ops'][:n_ops]
    for op, name in zip(plan['ops'], wanted):
        op['op'] = name
    if isinstance(plan.get('config'), dict) and 'verbose' in plan['config']:
        plan['config']['verbose'] = r.random() < 0.8
    for op in plan['ops']:
        if 'corpus' in op and r.random() < 0.8:
            op['corpus'] = which
    return plan


def unfold(plan):
    """The plan with the large corpus in it"""
    if not plan.get('large'):
        return plan
    which, n, seed = plan['large']
    corpora = list(plan['corpora'])
    if which >= len(corpora) or not corpora[which]:
        return plan
    corpora[which] = enlarged(corpora[which], n, seed)
    return dict(plan, corpora=corpora)
