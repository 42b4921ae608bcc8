"""C10: results depend on the corpus and the parameters, on nothing else.

Each plan is executed by VARIANTS processes which differ in the hash seed and in an environment the plan describes: form of
the corpus, verbosity, log files, readings of memory, state of the global random number generators, what the process did
before. compare() wants the same answers."""
import os
import random

from sim import gen
from sim.canon import canon
from sim.kernel import Inapplicable

from .analysers import OTHERS, TOKENIZERS
from .trainables import TRAINABLES, FaultyCorpus, corpus_of

VARIANTS = 3
ANALYSERS = dict(TOKENIZERS, **{('o:' + k): v for k, v in OTHERS.items()})
T = ['t:' + n for n in sorted(TRAINABLES) if 'POS' not in n]
NAMES = T * 5 + sorted(ANALYSERS) * 2 + ['t:NewsPOSExtractor', 't:ChatPOSExtractor']
FORMS = ['list', 'tuple', 'file', 'iter']


def gen_env(rng, t):
    forms = FORMS + [f for f in ('counter', 'lrgraph') if f in t.kinds and False] if t else FORMS
    return {'form': rng.choice(forms), 'verbose': rng.random() < 0.5, 'log': rng.random() < 0.4,
            'memory': rng.choice([None, None, 0, 1, 10 ** 9, 2 ** 50]), 'random': rng.randint(0, 10 ** 6),
            'earlier': [[rng.choice(['WordExtractor', 'Bigram', 'LRNounExtractor', 'LRNounExtractor_v2', 'PredicatorExtractor',
                                     'EojeolPatternTrainer', 'BaseVectorizer', 'NewsNounExtractor']), rng.randint(0, 10 ** 6)]
                        for _ in range(rng.choice([0, 0, 1, 2]))]}


def gen_plan(rng, index, tier):
    name = NAMES[index % len(NAMES)]
    if name.startswith('t:'):
        t = TRAINABLES[name[2:]]
        trainings = [{'sents': t.gen_corpus(rng, 3, 25), 'targs': t.gen_targs(rng)} for _ in range(2 if t.cumulative and rng.random() < 0.6 else 1)]
        plan = {'data': t.gen(rng), 'trainings': trainings, 'xargs': [t.gen_xargs(rng) for _ in range(2)] if t.has_extract() else []}
    else:
        t = None
        a = ANALYSERS[name]
        data = a.gen(rng)
        plan = {'data': data, 'calls': [a.gen_call(rng, data) for _ in range(rng.randint(2, 8))]}
    return dict(plan, subject=name, env=[gen_env(rng, t) for _ in range(VARIANTS)])


def stub_memory(value):
    import collections
    import psutil
    real = psutil.Process
    info = collections.namedtuple('info', 'rss vms')(value, value)

    class Process(real):
        def memory_info(self):
            return info
    psutil.Process = Process
    mem = psutil.virtual_memory()
    psutil.virtual_memory = lambda: mem._replace(available=value, percent=50.0, used=value)


def corpus_in(form, sents, n):
    if form == 'tuple':
        return tuple(sents)
    return corpus_of(form, sents, os.path.abspath('corpus{}.txt'.format(n)))


def execute(plan, ctx):
    import numpy as np
    env = plan['env'][ctx.variant]
    random.seed(env['random'])
    np.random.seed(env['random'])
    for name, seed in env['earlier']:
        t = TRAINABLES[name]
        r = random.Random(seed)
        data = t.gen(r)
        data.pop('log', None)
        obj = t.make(data)
        t.train(obj, t.gen_corpus(r, 3, 10), t.gen_targs(r), data)
        t.view(obj, data)
    if env['memory'] is not None:
        stub_memory(env['memory'])
    ctx.fault('environment:form=' + env['form'])
    ctx.fault('environment:earlier-use', len(env['earlier']))
    ctx.fault('environment:memory-reading', env['memory'] is not None)
    ctx.fault('environment:hash-seed')
    name, data = plan['subject'], dict(plan['data'])
    obs = []
    if name.startswith('t:'):
        t = TRAINABLES[name[2:]]
        kw = dict(data.get('kw', {}))
        if 'verbose' in kw:
            kw['verbose'] = env['verbose']
        if 'verbose_points' in kw:
            kw['verbose_points'] = 1 if env['verbose'] else -1
        data['kw'] = kw
        if 'log' in data:
            data['log'] = env['log']
        obj = t.make(data)
        for n, tr in enumerate(plan['trainings']):
            if not tr['sents'] or not all(s.strip() for s in tr['sents']):
                raise Inapplicable()
            t.train(obj, corpus_in(env['form'], tr['sents'], n), tr['targs'], data)
        for x in plan['xargs']:
            obs.append(t.extract(obj, x))
        obs.append(t.view(obj, data))
    else:
        a = ANALYSERS[name]
        if 'verbose' in data:
            data['verbose'] = env['verbose']
        obj, _ = a.make(data)
        for c in plan['calls']:
            obs.append(a.canon(a.call(obj, c, data)))
    ctx.count('evaluations')
    ctx.log(obs)
    ctx.state((name, env['form'], env['verbose'], env['memory'] is None, len(env['earlier'])))
    ctx.interesting({'subject': name, 'environment': env})
    return obs
