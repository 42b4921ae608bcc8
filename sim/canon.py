"""Canonical, comparable and JSON-able form of results."""
import math
import types

import numpy as np


def canon(x, digits=None, ordered=False):
    """Dicts and sets become sorted lists, named tuples become tuples.

    digits: round floats to that many significant digits (None: exact).
    ordered: keep the iteration order of dicts.
    """
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return 'nan'
        if math.isinf(x):
            return 'inf' if x > 0 else '-inf'
        if digits is not None:
            x = float('%.*e' % (digits - 1, x))
        if x == int(x) and abs(x) < 1e15:
            return int(x)
        return x
    if isinstance(x, dict):
        items = [[canon(k, digits, ordered), canon(v, digits, ordered)] for k, v in x.items()]
        if not ordered:
            items.sort(key=lambda kv: repr(kv[0]))
        return ['dict'] + items
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((canon(v, digits, ordered) for v in x), key=repr)
    if isinstance(x, (list, tuple)):
        return [canon(v, digits, ordered) for v in x]
    if isinstance(x, bytes):
        return ['bytes', x.hex()]
    if isinstance(x, np.ndarray):
        return canon(x.tolist(), digits, ordered)
    if hasattr(x, 'tocoo'):
        coo = x.tocoo()
        cells = {}
        for i, j, v in zip(coo.row.tolist(), coo.col.tolist(), coo.data.tolist()):
            cells[(i, j)] = cells.get((i, j), 0) + v
        cells = sorted([i, j, canon(v, digits)] for (i, j), v in cells.items() if v != 0)
        return ['matrix', list(coo.shape), cells]
    if isinstance(x, (types.GeneratorType, type({}.keys()), type({}.values()), type({}.items()))):
        return [canon(v, digits, ordered) for v in x]
    if hasattr(x, '__dict__'):
        return [type(x).__name__, canon(vars(x), digits, ordered)]
    return repr(x)


def state(obj, digits=None, depth=0):
    """Observable deep state of a soynlp object: every attribute which is data.
    Bookkeeping whose only purpose is caching is compared as well, on purpose
    only where a check asks for it."""
    return canon({k: v for k, v in vars(obj).items() if not callable(v)}, digits)


def first_difference(a, b, path=''):
    """Where two canonical forms differ"""
    if isinstance(a, list) and isinstance(b, list):
        for i in range(max(len(a), len(b))):
            if i >= len(a):
                return '{}[{}]: missing vs {}'.format(path, i, repr(b[i])[:160])
            if i >= len(b):
                return '{}[{}]: {} vs missing'.format(path, i, repr(a[i])[:160])
            d = first_difference(a[i], b[i], '{}[{}]'.format(path, i))
            if d:
                return d
        return ''
    if a != b or type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return '{}: {} vs {}'.format(path, repr(a)[:160], repr(b)[:160])
    return ''


def close(a, b, rel=1e-9, abs_=1e-12):
    """Equality of canonical forms with tolerance for floats"""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, rel, abs_) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or math.isclose(a, b, rel_tol=rel, abs_tol=abs_)
    return type(a) is type(b) and a == b
