"""Model of Hangul syllables, of conjugation, of lemma candidates and of the normalisation before counting, which the models of C16, C17
and C18 are built on. It imports nothing of the library. What is no Korean raises (ValueError or TypeError), as it does there."""
import functools

CHO = 'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ'
JUNG = 'ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ'
JONG = ' ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ'


def syllable(cho, jung, jong=' '):
    if len(cho) != 1 or len(jung) != 1 or len(jong) != 1:
        raise ValueError()
    return chr(0xac00 + (CHO.index(cho) * 21 + JUNG.index(jung)) * 28 + JONG.index(jong))


def jamo(c):
    """-> first, middle and last sound"""
    if '가' <= c <= '힣':
        n = ord(c) - 0xac00
        return CHO[n // 588], JUNG[n % 588 // 28], JONG[n % 28]
    if 'ㄱ' <= c <= 'ㅎ':
        return c, ' ', ' '
    if 'ㅏ' <= c <= 'ㅣ':
        return ' ', c, ' '
    raise TypeError()


@functools.lru_cache(None)
def _conjugate(stem, eomi):
    head, last, rest = stem[:-1], stem[-1], eomi[1:]
    c, v, f = jamo(last)
    rc, rv, rf = jamo(eomi[0])
    out = set()
    opened = syllable(rc, rv) if rv != ' ' else eomi[0]
    vowel = rc == 'ㅇ'
    if eomi[0] == '다':
        out.add(stem + eomi)
    if f == 'ㄷ' and vowel:                                     # 깨닫 + 아
        out |= {head + syllable(c, v, 'ㄹ') + eomi, stem + eomi}
    if last == '르' and stem[-2:] != '푸르' and opened in ('아', '어') and head:     # 구르 + 어
        pc, pv, _ = jamo(head[-1])
        out.add(head[:-1] + syllable(pc, pv, 'ㄹ') + syllable('ㄹ', rv, rf) + rest)
    if f == 'ㅂ' and opened in ('어', '아'):                     # 더럽 + 어, 곱 + 아
        wide = 'ㅝ' if head and last in '답곱깝롭' or opened == '어' else 'ㅘ'
        out.add(head + syllable(c, v) + syllable('ㅇ', wide, rf) + rest)
    elif f == 'ㅂ' and vowel:                                    # 돕 + 울까
        out.add(head + syllable(c, v) + eomi)
    if rv == ' ' and rc in 'ㄴㄹㅁㅂㅆ':                          # 이 + ㅂ니다
        out.add(head + syllable(c, v, rc) + rest)
    if f == 'ㅅ' and vowel:                                      # 붓 + 어, but 벗 + 어
        out.add((stem if last == '벗' else head + syllable(c, v)) + eomi)
    if (v, f) == ('ㅜ', ' ') and vowel and rv == 'ㅓ':           # 푸 + 어, 주 + 어
        out.add(head + ('퍼' if last == '푸' else syllable(c, 'ㅝ', rf)) + rest)
    if (v, f) == ('ㅗ', ' ') and vowel and rv == 'ㅏ':           # 오 + 았어
        out.add(head + syllable(c, 'ㅘ', rf) + rest)
    if (v, f) == ('ㅡ', ' ') and vowel:                          # 끄 + 어, 모으 + 았다
        if c == 'ㅇ' and head:
            out.add(head + eomi)
        elif c != 'ㄹ':
            out.add(head + syllable(c, rv, rf) + rest)
    if eomi[:2] in ('어라', '아라'):
        if last in '오우':
            out.add(head + {'오': '와', '우': '워'}[last] + rest)
        elif last == '가':
            out.add(stem + rest)
        else:
            out.add(stem + ('어' if v in 'ㅓㅕㅜㅠ' else '아') + rest)
    if last == '르' and stem[-2:] != '구르' and vowel and rv == 'ㅓ':             # 이르 + 어
        out.add(stem + syllable('ㄹ', rv, rf) + rest)
    if last == '하' and vowel and rv in 'ㅏㅓ':
        out |= {stem + syllable('ㅇ', 'ㅕ', rf) + rest, head + syllable('ㅎ', 'ㅐ', rf) + rest}
    if f == 'ㅎ' and rv != ' ':                                  # 파랗 + 면
        out.add((stem if last in '좋놓' else head + syllable(c, v)) + eomi)
    if f == 'ㅎ' and last != '좋' and (vowel and rv == 'ㅏ' or rv == 'ㅓ'):       # 파랗 + 았다
        out.add(head + syllable(c, 'ㅐ' if rv == 'ㅏ' else 'ㅔ', rf) + rest)
    if f == 'ㅎ' and rc == 'ㄴ' and rv != ' ':
        out.add(stem + eomi)
    if opened == '어' and (v, f) == ('ㅣ', ' '):                 # 만지 + 었어
        out |= {head + syllable(c, 'ㅕ', rf) + rest, stem + eomi}
    if not out and rv != ' ':
        out.add(head + syllable(c, v, rf) + rest if f == ' ' and vowel and rv == v else stem + eomi)
    return frozenset(out)


def conjugate(stem, eomi):
    return set(_conjugate(stem, eomi))


def stem_surfaces(stem):
    """what a stem may become in front of an ending"""
    head, last = stem[:-1], stem[-1]
    c, v, f = jamo(last)
    sounds = set()
    out = {stem}
    if f == 'ㄷ':
        sounds.add((v, 'ㄹ'))
    if last == '르' and head:
        pc, pv, _ = jamo(head[-1])
        out.add(head[:-1] + syllable(pc, pv, 'ㄹ'))
    if f == 'ㅂ' or f == 'ㅅ' and last != '벗':
        sounds.add((v, ' '))
    if f == ' ':
        sounds |= {(v, x) for x in 'ㄴㄹㅂㅆ'}
        if v == 'ㅜ' and last != '푸':
            sounds |= {('ㅝ', ' '), ('ㅝ', 'ㅆ')}
        if v == 'ㅗ':
            sounds |= {('ㅘ', ' '), ('ㅘ', 'ㅆ')}
        if v == 'ㅡ':
            sounds |= {('ㅓ', ' '), ('ㅓ', 'ㅆ')}
            if c == 'ㅇ' and head:
                out.add(head)
        if v == 'ㅣ':
            sounds.add(('ㅕ', 'ㅆ'))
        if last == '하':
            out |= {head + '해', head + '했'}
    if f == 'ㅎ' and last != '좋':
        sounds |= {(v, x) for x in ' ㄴㄹㅆ'} | {('ㅐ', 'ㅆ')}
    return out | {head + syllable(c, x, y) for x, y in sounds}


@functools.lru_cache(None)
def _lemmas(l, r):
    head, last = l[:-1], l[-1]
    c, v, f = jamo(last)
    opened = syllable(c, v)
    rc, rv, rf = jamo(r[0]) if r else ('', '', '')
    ropened = syllable(rc, rv) if r else ' '
    found = {(l, r)}

    def stem(*sounds):
        return head + syllable(*sounds)
    if f == 'ㄹ' and rc == 'ㅇ':
        found.add((stem(c, v, 'ㄷ'), r))
    if f == 'ㄹ' and ropened in ('러', '라'):
        found.add((stem(c, v) + '르', syllable('ㅇ', rv, rf) + r[1:]))
    if f == ' ':
        if ropened in ('워', '와'):
            eomi = syllable('ㅇ', {'워': 'ㅓ', '와': 'ㅏ'}[ropened], rf) + r[1:]
        elif r[1:2] == '려':
            eomi = syllable('ㅇ', 'ㅜ', rf) + r[1:]
        else:
            eomi = r
        found.add((stem(c, v, 'ㅂ'), eomi))
    if f in 'ㄴㄹㅁㅂㅆ':
        found |= {(stem(c, v, x), f + r) for x in ' ㄹㅂㅎ' if x != f}
    if f == ' ' and rc == 'ㅇ':
        found.add((stem(c, v, 'ㅅ'), r))
    if opened == '퍼':
        found.add((head + '푸', syllable('ㅇ', v, f) + r))
    if v == 'ㅝ':
        found.add((stem(c, 'ㅜ'), syllable('ㅇ', 'ㅓ', f) + r))
    if v == 'ㅘ':
        found.add((stem(c, 'ㅗ'), syllable('ㅇ', 'ㅏ', f) + r))
    if v in 'ㅓㅏ':
        found.add((stem(c, 'ㅡ'), syllable('ㅇ', v, f) + r))
    if f == ' ' and rc == 'ㅇ' and rv in 'ㅏㅓ':
        found.add((l + '으', r))
    if (c, v) == ('ㅎ', 'ㅐ'):
        found.add((head + '하', syllable('ㅇ', 'ㅏ', f) + r))
    if f in ' ㄴㄹㅂㅆ':
        if v in 'ㅏㅓ':
            found.add((stem(c, v, 'ㅎ'), r if f == ' ' else f + r))
        if v in 'ㅐㅔ':
            round_ = 'ㅏ' if v == 'ㅐ' else 'ㅓ'
            found.add((head + '렇' if head[-1:] == '그' and c == 'ㄹ' else stem(c, round_, 'ㅎ'), syllable('ㅇ', round_, f) + r))
    if f in 'ㅆㅅ ' and v == 'ㅕ':
        found.add((stem(c, 'ㅣ'), syllable('ㅇ', 'ㅓ', f) + r))
    return frozenset((s, e) for s, e in found if e and jamo(e[0])[2] != 'ㅎ' and l + r in _conjugate(s, e))


def lemmas(l, r):
    """stems and endings which a left and a right part may come from"""
    return set(_lemmas(l, r))


def hangul(c):
    return 'ㄱ' <= c <= 'ㅎ' or 'ㅏ' <= c <= 'ㅣ' or '가' <= c <= '힣'


def normalized(sent):
    """a sentence as the extractors count it: each eojeol up to its last Korean letter"""
    kept = ''.join(c if hangul(c) or c in ',.?!"' or "'" <= c <= ')' or c.isascii() and c.isalnum() else ' ' for c in sent)
    kept = ''.join(' ' if c in '()[]{}`' else c for c in kept)
    out = []
    for w in kept.split():
        while w and not hangul(w[-1]):
            w = w[:-1]
        if w:
            out.append(w)
    return ' '.join(out)
