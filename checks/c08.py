"""C08: every other question to a shared object (tagging, lemmatising, normalising, encoding, scoring, predicting): the
answer is that of the only call ever made."""
from .analysers import OTHERS
from . import calls

NAMES = sorted(n for n, a in OTHERS.items() for _ in range(a.weight))


def warmup():
    import soynlp.noun._noun_postprocessing     # noqa
    import soynlp.pos._adverb                   # noqa


def gen_plan(rng, index, tier):
    a = OTHERS[NAMES[index % len(NAMES)]]
    data = a.gen(rng)
    return {'subject': a.name, 'data': data, 'phases': calls.gen_phases(rng, a, data)}


def execute(plan, ctx):
    calls.run(plan, ctx, OTHERS[plan['subject']])
