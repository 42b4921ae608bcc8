"""C07: tokenizers: every call answers as if it were the only one ever made, and no character gets lost."""
from .analysers import TOKENIZERS
from . import calls

NAMES = sorted(n for n, a in TOKENIZERS.items() for _ in range(a.weight))


def gen_plan(rng, index, tier):
    a = TOKENIZERS[NAMES[index % len(NAMES)]]
    data = a.gen(rng)
    return {'subject': a.name, 'data': data, 'phases': calls.gen_phases(rng, a, data)}


def execute(plan, ctx):
    calls.run(plan, ctx, TOKENIZERS[plan['subject']])
