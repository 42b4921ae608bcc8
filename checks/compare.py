"""Comparison of the observations of several executions of one plan (runs in the main process)."""
from sim.kernel import Violation


def close(a, b, rel=1e-7):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= rel * max(abs(a), abs(b), 1e-3)
    return a == b


def where(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list):
        for i in range(max(len(a), len(b))):
            x, y = (a[i] if i < len(a) else 'missing'), (b[i] if i < len(b) else 'missing')
            if not close(x, y):
                return where(x, y, '{}[{}]'.format(path, i))
    return '{}: {} vs {}'.format(path, repr(a)[:200], repr(b)[:200])


def c10(plan, obs):
    for v in range(1, len(obs)):
        if not close(obs[0], obs[v]):
            raise Violation('depends', '{}: the same corpus and parameters give other results in another environment'.format(
                plan['subject'] if plan else ''), difference=where(obs[0], obs[v]), variant=v)
