"""C15: tag dictionaries hold exactly what was put into them, through every history of adding, removing, saving, loading and failing,
and the taggers which use them follow: the candidates are exactly the matches of the dictionary as it is now, and a tagged sentence
has every character of the sentence, with words which have their tags."""
import os

from sim import gen, sched, simio
from sim.kernel import Inapplicable, Violation

TAGS = ['Noun', 'Josa', 'Verb', 'Adjective', 'Adverb', 'Exclamation', 'Eomi']
LTAGS = {'Noun', 'Adjective', 'Verb', 'Adverb', 'Exclamation'}
TEMPLATES = {'Noun': ('Josa', 'Verb', 'Adjective')}
SINGLE = ['Noun', 'Verb', 'Adjective', 'Adverb', 'Exclamation']
PAIRS = [('Noun', 'Verb'), ('Noun', 'Adjective'), ('Noun', 'Josa')]


def gen_plan(rng, index, tier):
    if rng.random() < 0.5:
        alphabet = rng.choice(['가나', '가나다'])
        sents = [' '.join(gen.small_token(rng, alphabet, 1, 7) for _ in range(rng.randint(1, 4))) for _ in range(4)]
    else:
        sents = gen.corpus(rng, 4, 4)
    parts = sorted({w[b:e] for s in sents for w in s.split() for b in range(len(w)) for e in range(b + 1, min(len(w), b + 5) + 1)})

    def words(lo, hi):
        return [rng.choice(parts) for _ in range(rng.randint(lo, hi))]
    start = {t: sorted(set(words(0, 6))) for t in rng.sample(TAGS, rng.randint(1, 6))}
    ops = []
    for _ in range(rng.randint(2, 12)):
        op = {'op': rng.choices(['add', 'add_interrupted', 'remove', 'remove_tag', 'save', 'load', 'save_bad', 'load_bad', 'construct', 'threads', 'caller'],
                                [8, 2, 4, 1, 3, 3, 1, 1, 1, 2, 1])[0],
              'tag': rng.choice(TAGS + ['없음']), 'words': words(0, 4), 'force': rng.random() < 0.5, 'as': rng.choice(['set', 'list', 'str', 'tuple']),
              'slot': rng.randint(0, 1), 'where': rng.random(), 'sents': [rng.randint(0, 3) for _ in range(2)]}
        if op['op'] == 'threads':
            op.update(tasks=[[[rng.randint(0, 1), rng.randint(0, 3)] for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))],
                      switches=gen.gaps(rng, rng.choice([1, 2, 4, 10]), rng.choice([5, 30, 150])))
        ops.append(op)
    preference, rules = None, None
    if rng.random() < 0.5:
        preference = {}
        for t in rng.sample(TAGS, rng.choice([1, 2, 3])):
            preference[t] = {w: rng.choice([3.0, 1.0, 0.25, -0.5, -2.0]) for w in set(words(1, 2) + start.get(t, []))}
    if rng.random() < 0.4:
        # kinds of words and of pairs of words which the caller chooses
        rules = {'ltags': rng.sample(TAGS, rng.randint(1, 4)), 'templates': {t: rng.sample(TAGS, rng.randint(1, 3)) for t in rng.sample(TAGS, rng.randint(1, 3))},
                 'single_tags': rng.sample(TAGS, rng.randint(1, 4)), 'lr_templates': [rng.sample(TAGS, 2) for _ in range(rng.randint(1, 3))]}
        rules = {k: x for k, x in rules.items() if rng.random() < 0.7}
    return {'rules': rules, 'sents': sents, 'start': start, 'ops': ops, 'weights': [[rng.choice([-1, 0, 0.5, 1, 2]) for _ in range(7)] if rng.random() < 0.3 else None,
                        [rng.choice([-1, 0, 0.5, 1, 2]) for _ in range(8)] if rng.random() < 0.3 else None], 'preference': preference,
            'wchunk': rng.choice([0, 0, 5]), 'rchunk': rng.choice([0, 0, 7])}


# ------------------------------------------------------------------ model

def lr_candidates(model, t, rules):
    out = set()
    ltags, templates = rules.get('ltags', LTAGS), rules.get('templates', TEMPLATES)
    n = len(t)
    for b in range(n):
        for m in range(b + 2, n + 1):
            for tag, ws in model.items():
                if tag not in ltags or t[b:m] not in ws:
                    continue
                out.add((t[b:m], tag, '', None, b, m, m))
                for rtag in templates.get(tag, ()):
                    for e in range(m + 1, n + 1):
                        if t[m:e] in model.get(rtag, ()):
                            out.add((t[b:m], tag, t[m:e], rtag, b, m, e))
    return out


def eojeol_candidates(model, t, rules):
    """The ones of one or two words; compounds are judged by law"""
    n = len(t)
    out = {(t, tag, '', None, 0, n, n) for tag, ws in model.items() if tag in rules.get('single_tags', SINGLE) and t in ws} or {(t, None, '', None, 0, n, n)}
    for b in range(1, n):
        for l, r in rules.get('lr_templates', PAIRS):
            if t[:b] in model.get(l, ()) and t[b:] in model.get(r, ()):
                out.add((t[:b], l, t[b:], r, 0, b, n))
    return out


def compound(model, t, tag):
    """Shortest words of the tag one after the other, which are not the whole eojeol"""
    out, b, ws = [], 0, model.get(tag, ())
    while b < len(t):
        ends = [e for e in range(b + 1, len(t) + 1) if t[b:e] in ws and (b, e) != (0, len(t))]
        if not ends:
            return None
        out.append((t[b:ends[0]], tag, '', None, b, ends[0], ends[0]))
        b = ends[0]
    return tuple(out)


LR_WEIGHTS = [0.3, 0.15, 0.2, 0.1, 0.1, 0.1, -0.2]
EOJEOL_WEIGHTS = [-0.1, -0.15, 0.2, -0.3, 0.1, -0.05, 0.1, 0.2]


def lr_score(c, w, preference):
    if c.l_tag in ('Verb', 'Adverb'):
        return None                 # the weight of verbs goes to adverbs; which of both is meant is not documented
    features = [c.l_tag == 'Noun', c.l_tag is not None and c.r_tag is not None, 0, c.l_tag == 'Adjective', len(c.l), len(c.r), len(c.l) == 1]
    return sum(f * x for f, x in zip(features, w)) + preference.get(c.l_tag, {}).get(c.l, 0) + preference.get(c.r_tag, {}).get(c.r, 0)


def eojeol_score(words, w):
    tags = [x.l_tag for x in words]
    one = words[0] if len(words) == 1 else None
    features = [tags.count('Noun'), len(tags), 'Noun' in tags, tags.count(None), one is None and set(tags) == {'Adverb'},
                one is None and set(tags) == {'Noun'}, one is not None and (one.l_tag, one.r_tag) == ('Noun', 'Josa'),
                one is not None and one.l_tag == 'Noun' and not one.r]
    return sum(f * x for f, x in zip(features, w))


def as_form(words, form):
    return {'set': set, 'list': list, 'tuple': tuple, 'str': ' '.join}[form](words)


# ------------------------------------------------------------------ run

def expect_dictionary(ctx, d, model, words, when):
    ctx.count('evaluations')
    got = {t: set(ws) for t, ws in d.pos_dict.items()}
    if got != model:
        raise Violation('content', 'a tag dictionary does not hold what was put into it ({})'.format(when),
                        tags=sorted(t for t in set(got) | set(model) if got.get(t) != model.get(t)))
    for w in words:
        tags = d.get_pos(w)
        if sorted(tags) != sorted(t for t, ws in model.items() if w in ws):
            raise Violation('get_pos', 'get_pos does not give the tags of a word ({})'.format(when), word=w, got=tags)
        for t in TAGS + ['없음']:
            if bool(d.word_is_tag(w, t)) != (w in model.get(t, ())):
                raise Violation('word_is_tag', 'word_is_tag is wrong ({})'.format(when), word=w, tag=t)
    longest = max((len(w) for ws in model.values() for w in ws), default=0)
    if d.max_length < longest:
        raise Violation('max_length', 'words of a dictionary are longer than its max_length ({})'.format(when), got=d.max_length, longest=longest)


def expect_tagger(ctx, kind, tagger, model, sent, when, weights=None, preference=None, tagged=None, rules=None):
    ctx.count('evaluations')
    fine = tagger.tag(sent, flatten=False) if tagged is None else tagged
    eojeols = sent.split()
    if [''.join(w for w, _ in ws) for ws in fine] != eojeols:
        raise Violation('lost', 'a tagger loses or repeats characters ({})'.format(when), sent=sent, tagged=fine)
    for ws in fine:
        for w, t in ws:
            if t is not None and w not in model.get(t, ()):
                raise Violation('tag', 'a word has a tag which it does not have in the dictionary ({})'.format(when), word=w, tag=t)
    if tagged is not None:
        return fine
    if tagger.tag(sent) != [x for ws in fine for x in ws]:
        raise Violation('flatten', 'flat and structured results of a tagger disagree ({})'.format(when), sent=sent)
    again, considered = tagger.tag(sent, flatten=False, debug=True)
    if again != fine or len(considered) != len(eojeols) or tagger.tag(sent, debug=True)[0] != [x for ws in fine for x in ws]:
        raise Violation('debug', 'a tagger answers otherwise when it is asked for its candidates ({})'.format(when), sent=sent)
    for eojeol, ws, scored in zip(eojeols, fine, considered):
        found = tagger.generator.generate(eojeol)
        key = (lambda x: (str(x[0]), x[1]))
        if sorted(scored, key=key) != sorted([(c, tagger.evaluator.evaluate(c)) for c in found], key=key):
            raise Violation('debug', 'the candidates which a tagger gives are not the ones which it has ({})'.format(when), eojeol=eojeol)
        if kind == 'lr':
            got, want = [tuple(c) for c in found], lr_candidates(model, eojeol, rules)
            if len(got) != len(set(got)) or set(got) != want:
                raise Violation('candidates', 'candidates of a tagger are not the matches of the dictionary ({})'.format(when), eojeol=eojeol,
                                wrong=sorted(set(got) - want)[:3], missing=sorted(want - set(got))[:3])
            best = tagger.evaluator.select_best(found)
            if any(a.e > b.b for a, b in zip(best, best[1:])) or not {tuple(c) for c in best} <= want:
                raise Violation('best', 'the chosen candidates overlap or are no candidates ({})'.format(when), eojeol=eojeol)
            if any(all(c.e <= x.b or c.b >= x.e for x in best) for c in found):
                raise Violation('best', 'a candidate which overlaps with no chosen one is not chosen ({})'.format(when), eojeol=eojeol)
            score = tagger.evaluator.evaluate
            for c in found:
                if c not in best and not any(x.b < c.e and c.b < x.e and score(x) >= score(c) - 1e-9 for x in best):
                    raise Violation('best', 'a better candidate yields to worse ones ({})'.format(when), eojeol=eojeol, candidate=str(c))
                want = lr_score(c, weights[0] or LR_WEIGHTS, preference or {})
                if want is not None and abs(score(c) - want) > 1e-9:
                    raise Violation('score', 'the score of a candidate is wrong ({})'.format(when), candidate=str(c), got=score(c), expected=want)
        else:
            pairs = {tuple(c[0]) for c in found if len(c) == 1}
            want = eojeol_candidates(model, eojeol, rules)
            if pairs != want:
                raise Violation('candidates', 'candidates of a tagger are not the matches of the dictionary ({})'.format(when), eojeol=eojeol,
                                wrong=sorted(map(str, pairs - want))[:3], missing=sorted(map(str, want - pairs))[:3])
            compounds = {tuple(map(tuple, c)) for c in found if len(c) > 1}
            want = {c for c in (compound(model, eojeol, t) for t in ('Noun', 'Adverb')) if c}
            if compounds != want:
                raise Violation('candidates', 'compounds of a tagger are not those of the dictionary ({})'.format(when), eojeol=eojeol,
                                got=str(compounds), is_=str(want))
            for c in found:
                if ''.join(x.l + x.r for x in c) != eojeol or c[0].b != 0 or c[-1].e != len(eojeol) or any(a.e != b.b for a, b in zip(c, c[1:])):
                    raise Violation('candidates', 'a candidate does not cover its eojeol ({})'.format(when), eojeol=eojeol, candidate=str(c))
                if any(x.l_tag is not None and x.l not in model.get(x.l_tag, ()) for x in c):
                    raise Violation('candidates', 'a candidate has a word which is not in the dictionary ({})'.format(when), eojeol=eojeol, candidate=str(c))
            for c in found:
                want = eojeol_score(c, weights[1] or EOJEOL_WEIGHTS)
                if abs(tagger.evaluator.evaluate(c) - want) > 1e-9:
                    raise Violation('score', 'the score of a candidate is wrong ({})'.format(when), candidate=str(c), expected=want)
            top = max(tagger.evaluator.evaluate(c) for c in found)
            if not any([(w, t) for x in c for w, t in ((x.l, x.l_tag), (x.r, x.r_tag)) if w] == ws and abs(tagger.evaluator.evaluate(c) - top) < 1e-9
                       for c in found):
                raise Violation('best', 'the result is not a candidate of the highest score ({})'.format(when), eojeol=eojeol)
    return fine


def execute(plan, ctx):
    from soynlp import postagger as p
    if len(plan['sents']) < 4 or not all(s.strip() for s in plan['sents']):
        raise Inapplicable()
    os.makedirs('d')
    root = os.path.abspath('d')
    given = {t: set(ws) for t, ws in plan['start'].items()}
    d = p.Dictionary(given)
    model = {t: set(ws) for t, ws in plan['start'].items()}
    preference, rules = plan['preference'], plan.get('rules') or {}

    weights = [w and [('w{}'.format(i), x) for i, x in enumerate(w)] for w in plan['weights']]

    def taggers_of(d_):
        lr = {k: {'ltags': set, 'templates': dict}[k](x) for k, x in rules.items() if k in ('ltags', 'templates')}
        eojeol = {k: [tuple(y) if k == 'lr_templates' else y for y in x] for k, x in rules.items() if k not in lr}
        return {'lr': p.SimpleTagger(p.LRTemplateMatcher(d_, **lr), p.LREvaluator(weights[0], preference=preference), p.UnknowLRPostprocessor()),
                'eojeol': p.SimpleTagger(p.EojeolTemplateMatcher(d_, **eojeol), p.SimpleEojeolEvaluator(weights[1]))}
    taggers = taggers_of(d)
    words = sorted({w[b:e] for s in plan['sents'][:2] for w in s.split() for b in range(len(w)) for e in range(b + 1, min(len(w), b + 4) + 1)})[:30]
    saved = {}
    last = None
    for n, op in enumerate(plan['ops']):
        what, when = op['op'], op['op']
        path = os.path.join(root, 'd{}'.format(op['slot']))
        tag, ws = op['tag'], list(op['words'])
        io = dict(wchunk=plan['wchunk'], rchunk=plan['rchunk'])
        old = {t: set(x) for t, x in model.items()}
        if what in ('add', 'add_interrupted'):
            argument = as_form(ws, op['as'])
            kept = as_form(ws, op['as'])
            st = sched.Steps(interrupt_at=1 + int(op['where'] * 20) if what == 'add_interrupted' else None)
            try:
                with st:
                    d.add_words(tag, argument, force=op['force'])
            except ValueError:
                if tag in model or op['force']:
                    raise
            except KeyboardInterrupt:
                if st.where is None:
                    raise
                ctx.fault('interrupted-line')
                if {t: set(x) for t, x in d.pos_dict.items()} != old:
                    model.setdefault(tag, set()).update(ws)
            else:
                if tag not in model and not op['force']:
                    raise Violation('force', 'words of an unknown tag are added without force')
                model.setdefault(tag, set()).update(ws)
            if argument != kept:
                raise Violation('argument', 'add_words changes its argument')
            if op['as'] == 'set':
                argument.add('주인것')          # what the caller does with its set afterwards is its own business
        elif what in ('remove', 'remove_tag'):
            try:
                d.remove_words(tag, as_form(ws, op['as']) if what == 'remove' else None)
            except ValueError:
                if tag in model:
                    raise
            else:
                if tag not in model:
                    raise Violation('remove', 'removing an unknown tag is not refused')
                if what == 'remove':
                    model[tag] -= set(ws)
                else:
                    del model[tag]
        elif what == 'caller':
            given.setdefault(tag, set()).update(ws)
            given.pop('Noun', None)
        elif what in ('save', 'save_bad', 'load', 'load_bad', 'construct'):
            if what in ('load', 'load_bad', 'construct') and op['slot'] not in saved:
                continue
            kinds = ['write', 'openw', 'fsync', 'rename'] if 'save' in what else ['read', 'openr']
            faults = [{'ops': kinds, 'nth': int(op['where'] * 4), 'action': 'errno', 'arg': 'EIO'}] if what.endswith('_bad') else []
            failed = False
            simio.arm([root], faults, **io)
            try:
                if 'save' in what:
                    d.save(path)
                elif what == 'construct':
                    d = p.Dictionary(path)
                    taggers = taggers_of(d)
                else:
                    d.load(path)
            except OSError:
                if not faults or not simio.fired(1)[0]:
                    raise
                ctx.fault(what)
                failed = True
            finally:
                fired = bool(faults) and simio.fired(1)[0]
                simio.disarm()
            if fired and not failed:
                raise Violation('swallowed', '{} swallows an error'.format(what))
            if not failed:
                if 'save' in what:
                    saved[op['slot']] = {t: set(x) for t, x in model.items()}
                else:
                    model = {t: set(x) for t, x in saved[op['slot']].items()}
        elif what == 'threads':
            results = [[] for _ in op['tasks']]

            def body(k):
                def fn():
                    for kind, s in op['tasks'][k]:
                        results[k].append(taggers[['lr', 'eojeol'][kind]].tag(plan['sents'][s], flatten=False))
                return fn
            wants = [[taggers[['lr', 'eojeol'][kind]].tag(plan['sents'][s], flatten=False) for kind, s in t] for t in op['tasks']]
            sch = sched.Scheduler([body(k) for k in range(len(op['tasks']))], op['switches'])
            out = sch.run()
            ctx.fault('thread-switch', len(sch.trace))
            for k, (status, value) in enumerate(out):
                if status == 'raised':
                    raise Violation('thread', 'a tagger fails beside others: {}: {}'.format(type(value).__name__, value))
                for (kind, s), got, want in zip(op['tasks'][k], results[k], wants[k]):
                    expect_tagger(ctx, ['lr', 'eojeol'][kind], None, model, plan['sents'][s], when, tagged=got)
                    if got != want:
                        raise Violation('thread', 'a tagger answers otherwise beside others', sent=plan['sents'][s])
        expect_dictionary(ctx, d, model, words + ws, when)
        fresh = taggers_of(p.Dictionary({t: set(x) for t, x in model.items()}))
        for s in op['sents']:
            for kind, tagger in taggers.items():
                got = expect_tagger(ctx, kind, tagger, model, plan['sents'][s], when, plan['weights'], preference, rules=rules)
                want = fresh[kind].tag(plan['sents'][s], flatten=False)
                if got != want:
                    raise Violation('history', 'a tagger answers otherwise than one with a fresh dictionary of the same words ({})'.format(when),
                                    sent=plan['sents'][s], got=got, is_=want)
                ctx.log(got)
        ctx.state((what, last, tag in model, op['as'], bool(model), bool(saved)))
        last = what
        ctx.log(n, what, sorted((t, sorted(x)) for t, x in model.items()))
    ctx.interesting({'operations': [o['op'] for o in plan['ops']]})
