"""C09: objects which live side by side, built from the same inputs of one caller, do not influence one another, their
inputs, or anything the caller keeps."""
import copy
import os

from sim import gen, sched
from sim.canon import canon, first_difference
from sim.kernel import Inapplicable, Violation

from .analysers import TOKENIZERS, substrings, words_of
from .subjects import DictionarySubject, EojeolCounterSubject, LRGraphSubject
from .trainables import EOMIS, STEMS, TRAINABLES, FaultyCorpus

CHEAP = ['WordExtractor', 'Bigram', 'LRNounExtractor', 'LRNounExtractor_v2', 'PredicatorExtractor', 'EojeolPatternTrainer',
         'BaseVectorizer', 'Dictionary', 'LRGraph', 'EojeolCounter'] + sorted(TOKENIZERS)
KINDS = CHEAP * 3 + ['NewsNounExtractor'] * 3 + ['NewsPOSExtractor']
SETS = ('nouns', 'josas', 'adjectives', 'verbs', 'eomis', 'wordset_l', 'wordset_r')
counter_subject, graph_subject, dictionary_subject = EojeolCounterSubject(), LRGraphSubject(), DictionarySubject()


# ------------------------------------------------------------------ what the caller holds

def gen_env(rng, korean):
    v = gen.vocabulary(rng, korean)
    corpora = [gen.corpus(rng, 2, 9, v, korean) for _ in range(rng.choice([1, 2]))]
    sents = [s for c in corpora for s in c]
    words = words_of(sents)
    lr = {}
    for w in words:
        for e in range(1, min(len(w), 5) + 1):
            if rng.random() < 0.5:
                lr.setdefault(w[:e], {})[w[e:]] = rng.randint(1, 5)
    return {'corpora': corpora, 'sents': sents[:4],
            'nouns': rng.sample(gen.NOUNS, rng.randint(0, 12)), 'josas': rng.sample(gen.JOSAS, 8),
            'adjectives': STEMS['adjectives'][:rng.randint(1, 5)], 'verbs': STEMS['verbs'][:rng.randint(1, 12)],
            'eomis': rng.sample(EOMIS, rng.randint(6, len(EOMIS))),
            'wordset_l': substrings(rng, sents, 20, prefix=True) + [''], 'wordset_r': substrings(rng, sents, 20) + [''],
            'tags': {t: substrings(rng, sents, rng.randint(0, 6)) for t in DictionarySubject.TAGS[:rng.randint(1, 4)]},
            'lr': lr, 'scores': {w: rng.choice([0.1, 0.5, 0.9]) for w in substrings(rng, sents, 10)},
            'base_form': rng.choice(['set', 'list', 'dict'])}


def make_env(plan):
    from soynlp.utils import EojeolCounter
    e = plan['env']
    env = {'corpora': [list(c) for c in e['corpora']], 'tags': {t: set(w) for t, w in e['tags'].items()},
           'lr': {l: dict(r) for l, r in e['lr'].items()}, 'scores': dict(e['scores']), 'scores_r': dict(e['scores'], 는=0.5),
           'lr_kept': {l: dict(r) for l, r in e['lr'].items()}}
    for k in SETS:
        env[k] = set(e[k])
    env['base'] = {'set': set, 'list': sorted, 'dict': dict.fromkeys}[e['base_form']](env['nouns'])
    env['counters'] = [EojeolCounter(c) for c in e['corpora']]
    env['graphs'] = [c.to_lrgraph(10, 9) for c in env['counters']]
    return env


def env_view(env):
    # one by one: in which order items of a dict are kept is no change
    out = {k: canon(v) for k, v in env.items() if k not in ('counters', 'graphs')}
    out['counters'] = [counter_subject.view(c) for c in env['counters']]
    out['graphs'] = [graph_subject.view(g) for g in env['graphs']]
    return out


def gen_caller(rng, env):
    what = rng.choice(['corpora', 'tags', 'lr'] + list(SETS) + ['counters'])
    return {'what': what, 'i': rng.randint(0, 1), 'words': [gen.syllables(rng, 1, 4), rng.choice(gen.NOUNS)],
            'clear': rng.random() < 0.4, 'where': rng.random()}


def caller(env, op):
    """The caller changes what belongs to it"""
    x = env[op['what']]
    if op['what'] == 'corpora':
        x = x[op['i'] % len(x)]
        if op['clear']:
            x.clear()
        x.append(' '.join(op['words']))
    elif op['what'] == 'tags':
        for t in sorted(x)[:2]:
            if op['clear']:
                x[t].clear()
            x[t].update(op['words'])
        x.setdefault('New', set()).update(op['words'])
    elif op['what'] == 'lr':
        for l in sorted(x)[:1 + op['i']]:
            if op['clear']:
                x[l].clear()
            x[l][op['words'][0]] = 7
        x[op['words'][1]] = {'': 3}
    elif op['what'] == 'counters':
        c = x[op['i'] % len(x)]
        if c.num_of_uncovered_eojeols:
            words = sorted(w for w, _ in c.items())
            c.remove_covered_eojeols(set(words[:int(op['where'] * len(words))]))
    else:
        if op['clear']:
            x.clear()
        x.update(op['words'])


# ------------------------------------------------------------------ instances

def gen_instance(rng, kind, sents):
    if kind in TRAINABLES:
        t = TRAINABLES[kind]
        data = t.gen(rng)
        if 'log' in data:
            data['log'] = False
        if kind == 'PredicatorExtractor':
            data['default'] = False
        ops = []
        trained = False
        for _ in range(rng.randint(2, 4)):
            x = rng.random()
            if not trained or x < 0.3:
                op = {'op': 'train', 'corpus': rng.randint(0, 1), 'targs': t.gen_targs(rng),
                      'form': rng.choice(['list', 'list', 'counter', 'graph']) if 'counter' in t.kinds else 'list'}
                if kind == 'EojeolPatternTrainer':
                    op['targs'] = {}
                    op['wordsets'] = rng.random() < 0.5
                trained = True
            elif x < 0.4:
                op = {'op': 'fail', 'corpus': rng.randint(0, 1), 'where': rng.random(), 'targs': t.gen_targs(rng)}
            elif x < 0.7 and t.has_extract():
                op = {'op': 'extract', 'xargs': t.gen_xargs(rng)}
            else:
                op = {'op': 'view'}
            ops.append(op)
        return {'kind': kind, 'data': data, 'ops': ops + [{'op': 'view'}]}
    if kind in TOKENIZERS:
        a = TOKENIZERS[kind]
        probe = {'sents': ['', '', '']}
        ops = [{'op': 'call', 'call': a.gen_call(rng, probe)} for _ in range(rng.randint(2, 6))]
        data = {}
        if kind == 'MaxLRScoreTokenizer':
            data['graph'] = rng.random() < 0.3
            data['prefer'] = {k: substrings(rng, sents, 2, prefix=k == 'l') for k in 'lr' if rng.random() < 0.5}
        elif kind == 'LTokenizer':
            data['ds'] = rng.choice([0.0, 0.0, 0.3])
        return {'kind': kind, 'data': data, 'ops': ops}
    if kind == 'Dictionary':
        ops = [{'op': 'change', 'change': dictionary_subject.gen_op(rng)} if rng.random() < 0.6 else {'op': 'view'} for _ in range(rng.randint(2, 5))]
        return {'kind': kind, 'data': {'empty': rng.random() < 0.2}, 'ops': ops + [{'op': 'view'}]}
    if kind == 'LRGraph':
        ops = [{'op': 'change', 'change': graph_subject.gen_op(rng)} if rng.random() < 0.6 else {'op': 'view'} for _ in range(rng.randint(2, 5))]
        return {'kind': kind, 'data': {'via': rng.choice(['dict', 'dict', 'counter', 'origin', 'sents']), 'i': rng.randint(0, 1),
                                       'l': rng.choice([2, 10])}, 'ops': ops + [{'op': 'view'}]}
    ops = [{'op': 'change', 'change': counter_subject.gen_op(rng)} if rng.random() < 0.6 else {'op': 'view'} for _ in range(rng.randint(2, 5))]
    return {'kind': kind, 'data': {'via': rng.choice(['sents', 'sents', 'graph']), 'i': rng.randint(0, 1)}, 'ops': ops + [{'op': 'view'}]}


def pick(xs, i):
    return xs[i % len(xs)]


def build(inst, env):
    kind, d = inst['kind'], inst['data']
    if kind == 'PredicatorExtractor':
        from soynlp.predicator import PredicatorExtractor
        return PredicatorExtractor(env['nouns'], josas=env['josas'], adjectives=env['adjectives'], verbs=env['verbs'],
                                   eomis=env['eomis'], **d['kw'])
    if kind == 'NewsNounExtractor':
        from soynlp.noun import NewsNounExtractor
        return NewsNounExtractor(**dict(d['kw'], base_noun_dictionary=env['base']))
    if kind in TRAINABLES:
        return TRAINABLES[kind].make(d)
    if kind in TOKENIZERS:
        from soynlp import tokenizer as t
        if kind == 'LTokenizer':
            return t.LTokenizer(env['scores'], d.get('ds', 0.0))
        if kind == 'MaxScoreTokenizer':
            return t.MaxScoreTokenizer(env['scores'])
        if kind == 'MaxLRScoreTokenizer':
            kw = {'preference_' + k: dict.fromkeys(w, 10.0) for k, w in d.get('prefer', {}).items()}
            if d.get('graph'):
                kw['lrgraph'] = env['lr_kept']
            return t.MaxLRScoreTokenizer(Dl=env['scores'], Dr=env['scores_r'], **kw)
        if kind == 'RegexTokenizer':
            return t.RegexTokenizer()
        return getattr(t, kind)(env['scores'])
    if kind == 'Dictionary':
        from soynlp.postagger import Dictionary
        return Dictionary({} if d['empty'] else env['tags'])
    from soynlp.utils import EojeolCounter, LRGraph
    if kind == 'EojeolCounter':
        if d['via'] == 'graph':
            return pick(env['graphs'], d['i']).to_EojeolCounter()
        return EojeolCounter(pick(env['corpora'], d['i']))
    if d['via'] == 'dict':
        return LRGraph(lrgraph=env['lr'])
    if d['via'] == 'sents':
        return LRGraph(sents=pick(env['corpora'], d['i']))
    if d['via'] == 'counter':
        return pick(env['counters'], d['i']).to_lrgraph(d['l'], 9)
    return pick(env['graphs'], d['i']).copy_compatified_lrgraph_origin()


def apply(inst, obj, op, env, state):
    kind = inst['kind']
    if kind in TRAINABLES:
        t = TRAINABLES[kind]
        if op['op'] == 'train':
            form = op['form']
            if form == 'graph':
                corpus = pick(env['graphs'], op['corpus']).copy_compatified_lrgraph_origin()    # it belongs to the extractor from now on
            elif form == 'counter':
                corpus = pick(env['counters'], op['corpus'])
            else:
                corpus = pick(env['corpora'], op['corpus'])
            if form != 'graph' and not len(corpus):
                raise Inapplicable()
            if op.get('wordsets'):
                obj.train(corpus, env['wordset_l'], env['wordset_r'])
            else:
                t.train(obj, corpus, op['targs'], inst['data'])
            state['trained'] = True
            return None
        if op['op'] == 'fail':
            sents = pick(env['corpora'], op['corpus'])
            if not sents:
                raise Inapplicable()
            c = FaultyCorpus(sents)
            c.fault = (0, int(op['where'] * len(sents)), OSError('injected'))
            try:
                t.train(obj, c, op['targs'], inst['data'])
            except OSError:
                if not c.fired:
                    raise
                return 'failed'
            return 'trained'
        if not state.get('trained'):
            raise Inapplicable()
        if op['op'] == 'extract':
            return t.extract(obj, op['xargs'])
        return t.view(obj, inst['data'])
    if kind in TOKENIZERS:
        a = TOKENIZERS[kind]
        c = dict(op['call'])
        return a.canon(a.call(obj, dict(c, s=c['s'] % len(env['sents'])), env))
    s = {'Dictionary': dictionary_subject, 'LRGraph': graph_subject, 'EojeolCounter': counter_subject}[kind]
    if op['op'] == 'change':
        s.mutate(obj, op['change'])
        return None
    return s.view(obj)


# ------------------------------------------------------------------ the plan

def gen_plan(rng, index, tier):
    kinds = [KINDS[index % len(KINDS)]]
    for _ in range(rng.choice([1, 1, 2, 3])):
        kinds.append(rng.choice([kinds[0], kinds[0], rng.choice(CHEAP)]))
    korean = any(k in ('PredicatorExtractor', 'NewsPOSExtractor') for k in kinds)
    if kinds.count('NewsPOSExtractor') > 2:
        kinds = kinds[:2]
    env = gen_env(rng, korean)
    instances = [gen_instance(rng, k, env['sents']) for k in kinds]
    # an order of all operations; construction is the first of an instance
    left = [1 + len(i['ops']) for i in instances]
    phases = []
    while any(left):
        x = rng.random()
        ready = [i for i, n in enumerate(left) if n]
        if x < 0.2:
            phases.append({'mode': 'caller', 'op': gen_caller(rng, env)})
        elif x < 0.5 and len(ready) > 1:
            some = [i for i in ready if kinds[i] in CHEAP]
            if len(some) < 2:
                continue
            p = {'mode': 'threads', 'tasks': []}
            for i in some[:3]:
                n = rng.randint(1, min(3, left[i]))
                left[i] -= n
                p['tasks'].append([i, n])
            p['switches'] = gen.gaps(rng, rng.randint(3, 40), rng.choice([3, 12, 60, 300]))
            phases.append(p)
        else:
            i = rng.choice(ready)
            n = rng.randint(1, min(2, left[i]))
            left[i] -= n
            phases.append({'mode': 'ops', 'i': i, 'n': n})
    if rng.random() < 0.5:
        phases.append({'mode': 'caller', 'op': gen_caller(rng, env)})
    return {'env': env, 'instances': instances, 'phases': phases}


class Runner:
    """Runs the program of one instance, an operation at a time"""

    def __init__(self, inst, env, sents):
        self.inst, self.env, self.sents = inst, env, sents
        self.obj, self.at, self.state = None, 0, {}
        self.results = []

    def step(self, env=None):
        env = dict(env or self.env, sents=self.sents)
        if self.at == 0:
            self.obj = build(self.inst, env)
            self.results.append(None)
        elif self.at <= len(self.inst['ops']):
            self.results.append(apply(self.inst, self.obj, self.inst['ops'][self.at - 1], env, self.state))
        self.at += 1


def alone(plan, me):
    """What instance `me` answers when there is no other one and its inputs are its own. None: the environment only"""
    env = make_env(plan)
    views = []
    r = None if me is None else Runner(plan['instances'][me], None, plan['env']['sents'])
    for p in plan['phases']:
        if p['mode'] == 'caller':
            caller(env, p['op'])
        elif p['mode'] == 'ops':
            n = p['n'] if p['i'] == me else 0
        else:
            n = sum(n for i, n in p['tasks'] if i == me)
        if me is None:
            views.append(env_view(env))
        elif p['mode'] != 'caller':
            for _ in range(n):
                # nobody but this instance ever sees these
                r.step(copy.deepcopy(env))
    if me is None:
        return views
    while r.at <= len(r.inst['ops']) and r.at:
        r.step(copy.deepcopy(env))
    return r.results


def execute(plan, ctx):
    n = len(plan['instances'])
    for p in plan['phases']:
        if p['mode'] == 'ops' and p['i'] >= n or p['mode'] == 'threads' and (
                any(t[0] >= n for t in p['tasks']) or len({t[0] for t in p['tasks']}) != len(p['tasks'])):
            raise Inapplicable()
    if any(not c for c in plan['env']['corpora']) or not plan['env']['corpora'] or not plan['env']['sents']:
        raise Inapplicable()
    want = []
    for i in list(range(n)) + [None]:
        r = ctx.forked(alone, plan, i)
        if r[0] == 'raised':
            if r[1] == 'Inapplicable':
                raise Inapplicable()
            raise Violation('error', '{} fails when it is alone: {}: {}'.format(plan['instances'][i]['kind'], r[1], r[2]))
        if r[0] != 'ok':
            raise RuntimeError('reference run died: {}'.format(r))
        want.append(r[1])
    views = want.pop()
    env = make_env(plan)
    runners = [Runner(inst, env, plan['env']['sents']) for inst in plan['instances']]
    kinds = [i['kind'] for i in plan['instances']]
    checked = [0] * n

    def judge(when):
        for i, r in enumerate(runners):
            for k in range(checked[i], len(r.results)):
                ctx.count('evaluations')
                op = (['build'] + [o['op'] for o in r.inst['ops']])[k]
                ctx.log(i, k, r.results[k])
                if r.results[k] != want[i][k]:
                    raise Violation('influence', '{}: {} differs from what the object gives when it is alone'.format(r.inst['kind'], op),
                                    others=[kinds[j] for j in range(n) if j != i], when=when,
                                    difference=first_difference(r.results[k], want[i][k])[:500])
            checked[i] = len(r.results)

    for at, p in enumerate(plan['phases']):
        if p['mode'] == 'caller':
            caller(env, p['op'])
            ctx.fault('caller-changes-its-inputs')
            what = ('caller', p['op']['what'])
        elif p['mode'] == 'ops':
            for _ in range(p['n']):
                runners[p['i']].step()
            what = (kinds[p['i']], runners[p['i']].at)
        else:
            def body(i, k):
                def fn():
                    for _ in range(k):
                        runners[i].step()
                return fn
            s = sched.Scheduler([body(i, k) for i, k in p['tasks']], p['switches'])
            out = s.run()
            ctx.fault('thread-switch', len(s.trace))
            ctx.count('steps', s.steps)
            ctx.log([(t[0], t[1]) for t in s.trace])
            for (i, _), (status, value) in zip(p['tasks'], out):
                if status == 'raised':
                    raise Violation('thread', '{} fails while other threads use objects of their own: {}: {}'.format(
                        kinds[i], type(value).__name__, str(value)[:300]), others=[kinds[j] for j, _ in p['tasks'] if j != i])
            what = ('threads', tuple(sorted(kinds[i] for i, _ in p['tasks'])), min(len(s.trace), 6))
        ctx.state(what)
        judge(p['mode'])
        got = env_view(env)
        ctx.count('evaluations')
        for k in got:
            if got[k] != views[at][k]:
                raise Violation('inputs', 'an input of the caller ({}) was changed by {}'.format(k, what),
                                difference=first_difference(got[k], views[at][k])[:500])
    for r in runners:
        while 0 < r.at <= len(r.inst['ops']):
            r.step()
    judge('at the end')
    ctx.state(tuple(sorted(kinds)))
    ctx.interesting({'objects': kinds, 'phases': [p['mode'] for p in plan['phases']]})
