"""Model of the maximum score tokenizer, for C16, C18 and C20."""


def the_max(scores, ds, longest, word):
    """[(word, begin, end, score, length)]: the best of what is left, again and again"""
    n = len(word)
    if n <= 2:
        return [(word, 0, n, scores.get(word, ds), n)]
    parts = [(b, e) for b in range(n) for e in range(b + 2, min(b + longest, n) + 1)]
    chosen = []
    while parts:
        b, e = min(parts, key=lambda p: (-scores.get(word[p[0]:p[1]], ds), p[0] - p[1], p[0]))
        chosen.append((b, e))
        parts = [p for p in parts if p[1] <= b or p[0] >= e]
    chosen.sort()
    out, at = [], 0
    for b, e in chosen + [(n, n)]:
        for x, y in ((at, b), (b, e)):
            if x < y:
                out.append((word[x:y], x, y, scores.get(word[x:y], ds), y - x))
        at = e
    return out
