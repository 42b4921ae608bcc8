"""C03: a load which fails says so, and leaves what was there."""
import copy
import os
import shutil

from sim import gen, sched, simio
from sim.canon import canon, first_difference
from sim.kernel import REPO, Inapplicable, Violation
from .subjects import LOADABLE, SUBJECTS

ERRNOS = ['EIO', 'EACCES', 'EMFILE', 'ENOMEM', 'ESTALE']
RESOURCES = ['v1', 'v1-custom', 'v2', 'v2-custom', 'news', 'news-custom', 'predicator', 'dictionary', 'adverbs',
             'adverbs-custom', 'corpus-sort']


def gen_plan(rng, index, tier):
    if index % 3 == 2:
        return gen_resource(rng, RESOURCES[(index // 3) % len(RESOURCES)])
    name = LOADABLE[(index // 3 * 2 + index % 3) % len(LOADABLE)]
    s = SUBJECTS[name]
    return {
        'kind': 'object', 'subject': name, 'data': [s.gen(rng), s.gen(rng)],
        'changes': [s.gen_op(rng) for _ in range(rng.randint(0, 2))],
        'attempts': [{
            'how': rng.choice(['io', 'io', 'io', 'malformed', 'malformed', 'malformed', 'encoding', 'missing',
                               'directory', 'sigint', 'line']),
            'op': rng.choice(['read', 'read', 'openr']), 'nth': rng.random(), 'errno': rng.choice(ERRNOS),
            'sticky': rng.random() < 0.3, 'rchunk': rng.choice([0, 5, 40]), 'what': rng.randint(0, 4), 'where': rng.random(),
        } for _ in range(rng.randint(1, 3))]}


def gen_resource(rng, name):
    return {'kind': 'resource', 'resource': name, 'features': gen_features(rng), 'sents': gen.corpus(rng, 3, 8, korean_only=True),
            'attempts': [{'op': rng.choice(['read', 'read', 'openr']), 'nth': rng.random(), 'errno': rng.choice(ERRNOS),
                          'action': rng.choice(['errno', 'errno', 'errno', 'sigint', 'bad-line', 'eintr']),
                          'sticky': rng.random() < 0.3, 'rchunk': rng.choice([0, 0, 16, 500]), 'where': rng.random()}
                         for _ in range(rng.randint(1, 3))]}


def gen_features(rng):
    out = []
    for r in rng.sample(gen.JOSAS, rng.randint(3, 12)) + [gen.syllables(rng, 1, 2) for _ in range(rng.randint(0, 10))]:
        out.append([r, round(rng.uniform(-1, 1), 4)])
    return out


# ---------------------------------------------------------------- resources

class Resource:
    """Something which reads files when it is made"""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.dir = os.path.join(ctx.scratch, 'res')
        os.mkdir(self.dir)
        name = plan['resource']
        f = plan['features']
        self.files = []
        if name in ('v1-custom', 'news-custom'):
            half = len(f) // 2
            for i, part in enumerate((f[:half], f[half:] + f[:1])):
                self._write('p{}'.format(i), ['{}\t{}'.format(r, x) for r, x in part])
        elif name == 'v2-custom':
            for i in range(2):
                self._write('h{}_pos'.format(i), [r for r, x in f[i::2] if x > -0.2])
                self._write('h{}_neg'.format(i), [r for r, x in f[i::2] if x < 0.2])
        elif name == 'adverbs-custom':
            self._write('adv', ['{} {}'.format(r, 3) for r, _ in f] or ['가'])
        elif name == 'dictionary':
            from soynlp.postagger import Dictionary
            p = os.path.join(self.dir, 'dict')
            Dictionary({'Noun': {r for r, x in f if x > 0}, 'Josa': {r for r, x in f if x <= 0}}).save(p)
            self.files.append(p)
        elif name == 'corpus-sort':
            self._write('sorted', [r for r, _ in f] or ['가'])
        self.roots = [self.dir, os.path.join(REPO, 'soynlp')]

    def _write(self, name, lines):
        p = os.path.join(self.dir, name)
        with open(p, 'w', encoding='utf-8') as f:
            f.write(''.join(l + '\n' for l in lines))
        self.files.append(p)

    def make(self):
        from soynlp.noun import LRNounExtractor, LRNounExtractor_v2, NewsNounExtractor
        from soynlp.pos import load_default_adverbs
        from soynlp.postagger import Dictionary
        from soynlp.predicator import PredicatorExtractor
        name = self.plan['resource']
        if name == 'v1':
            return LRNounExtractor(verbose=False)
        if name == 'v1-custom':
            return LRNounExtractor(verbose=False, predictor_fnames=self.files)
        if name == 'v2':
            return LRNounExtractor_v2(verbose=False)
        if name == 'v2-custom':
            return LRNounExtractor_v2(verbose=False, predictor_headers=[f[:-4] for f in self.files if f.endswith('_pos')])
        if name == 'news':
            return NewsNounExtractor(verbose=False)
        if name == 'news-custom':
            return NewsNounExtractor(verbose=False, predictor_fnames=self.files)
        if name == 'predicator':
            return PredicatorExtractor({'사과', '학생', '데이터'}, verbose=False)
        if name == 'dictionary':
            return Dictionary(self.files[0])
        if name == 'adverbs':
            return load_default_adverbs()
        if name == 'adverbs-custom':
            return load_default_adverbs(self.files[0])
        if name == 'corpus-sort':
            from soynlp.utils.utils import sort_by_alphabet
            sort_by_alphabet(self.files[0])
            with open(self.files[0], encoding='utf-8') as f:
                return f.read()
        raise Inapplicable()

    def view(self, obj):
        if isinstance(obj, (set, str)):
            return canon(obj)
        data = {k: v for k, v in vars(obj).items() if isinstance(v, (set, dict, int, float, str, list, tuple, bool))}
        return canon([data, self.behaviour(obj)], 10)

    def behaviour(self, obj):
        name = self.plan['resource']
        sents = self.plan['sents'] or ['가나다는 사과를 먹었다']
        obj = copy.deepcopy(obj)
        if name.startswith('v1'):
            return obj.train_extract(sents, min_noun_frequency=1)
        if name.startswith('v2'):
            return obj.train_extract(sents, min_noun_frequency=1)
        if name.startswith('news'):
            return obj.train_extract(sents, min_frequency=1)
        if name == 'predicator':
            a, v = obj.train_extract(sents, min_eojeol_frequency=1, min_predicator_frequency=1)
            return [a, v]
        return None


def resource(plan, ctx):
    r = Resource(plan, ctx)
    counts = {}

    def first():
        simio.arm(r.roots)
        obj = r.make()
        counts.update(simio.counts())
        simio.disarm()
        return counts, r.view(obj)

    out = ctx.pristine(first)
    if out[0] != 'ok':
        raise Violation('cannot-be-made', '{} cannot be made: {}'.format(plan['resource'], out[1:3]))
    counts, want = out[1]
    if plan['resource'] == 'corpus-sort':
        with open(r.files[0], encoding='utf-8') as f:
            r.sorted_text = f.read()
    for a in plan['attempts']:
        if a['action'] == 'bad-line' and r.files and plan['resource'] in ('v1-custom', 'news-custom', 'adverbs-custom', 'dictionary'):
            bad_line(r, a, ctx, want)
            continue
        n = {'read': counts.get('read', 0), 'openr': counts.get('openr', 0)}[a['op']]
        rchunk = a['rchunk'] if n < 40 else 0
        act, arg = ('sigint', 0) if a['action'] == 'sigint' else ('errno', 'EINTR' if a['action'] == 'eintr' else a['errno'])
        fault = {'ops': [a['op']], 'nth': int(a['nth'] * n), 'action': act, 'arg': arg,
                 'sticky': a['sticky'] and a['action'] == 'errno'}
        simio.arm(r.roots, [fault], rchunk=rchunk)
        obj, failed = None, None
        try:
            obj = r.make()
        except (OSError, KeyboardInterrupt) as e:
            failed = type(e).__name__
        fired = simio.fired(1)[0]
        handles = simio.open_handles()
        simio.disarm()
        ctx.fault(a['action'] if a['action'] != 'errno' else a['errno'], fired)
        ctx.log(plan['resource'], failed, fired)
        ctx.state((plan['resource'], a['op'], a['action'], min(fault['nth'], 12), failed))
        what = '{} made while reading fails'.format(plan['resource'])
        if failed is None:
            got = r.view(obj)
            if got != want:
                raise Violation('partial-resource', what + ' is incomplete and nothing is reported',
                                difference=first_difference(want, got))
        elif not fired:
            raise Violation('cannot-be-made', '{} cannot be made: {}'.format(plan['resource'], failed))
        elif a['action'] == 'eintr':
            raise Violation('eintr', '{}: an interrupted system call is not repeated'.format(plan['resource']))
        obj = None
        ctx.check(handles == 0, 'open-file', '{}: {} file(s) stay open'.format(what, handles))
        # the failure leaves no trace
        got = r.view(r.make())
        if got != want:
            raise Violation('poisoned', '{} made after a failed attempt differs'.format(plan['resource']),
                            difference=first_difference(want, got))
        ctx.count('evaluations', 2)
    ctx.interesting({'resource': plan['resource'], 'attempts': [x['action'] for x in plan['attempts']]})


def bad_line(r, a, ctx, want):
    """One of the files is malformed"""
    name = r.plan['resource']
    p = r.files[int(a['where'] * len(r.files)) % len(r.files)]
    with open(p, 'rb') as f:
        good = f.read()
    lines = good.split(b'\n')
    if name == 'dictionary':
        bad = good[:int(a['where'] * len(good))]
    else:
        bad_one = {'v1-custom': ['한 줄'.encode(), '가\tx'.encode(), '가\t0.1\t3'.encode(), b'\xff\xfe\t0.3'],
                   'news-custom': ['한 줄'.encode(), '가\tx'.encode(), '가\t0.1\t3'.encode(), b'\xff\xfe\t0.3'],
                   'adverbs-custom': [b'\xff\xfe']}[name]
        i = int(a['where'] * len(lines)) % len(lines)
        bad = b'\n'.join(lines[:i] + [bad_one[int(a['nth'] * 97) % len(bad_one)]] + lines[i:])
    with open(p, 'wb') as f:
        f.write(bad)
    ctx.fault('malformed-resource')
    simio.arm(r.roots)
    failed = None
    try:
        r.make()
    except Exception as e:
        failed = type(e).__name__
    handles = simio.open_handles()
    simio.disarm()
    ctx.log(name, failed)
    ctx.check(failed is not None, 'partial-resource', '{}: a malformed file is accepted silently'.format(name))
    ctx.check(handles == 0, 'open-file', '{}: file(s) stay open after a malformed file'.format(name))
    with open(p, 'wb') as f:
        f.write(good)
    got = r.view(r.make())
    if got != want:
        raise Violation('poisoned', '{} made after a failed attempt differs'.format(name),
                        difference=first_difference(want, got))


# ------------------------------------------------------------------ objects

def execute(plan, ctx):
    if plan['kind'] == 'resource':
        return resource(plan, ctx)
    s = SUBJECTS[plan['subject']]
    root = os.path.join(ctx.scratch, 'd')
    os.mkdir(root)
    path = os.path.join(root, 'model.vocab')
    source = s.build(plan['data'][0])
    s.save(source, path)
    want = s.saved_view(source)
    obj = s.build(plan['data'][1])
    for c in plan['changes']:
        s.mutate(obj, c)
    with open(path, 'rb') as f:
        good = f.read()
    for a in plan['attempts']:
        how = a['how']
        before = s.view(obj)
        bad, faults, must = good, [], True
        if how == 'malformed':
            bad = s.malformed(good, a['what'], a['where'])
        elif how == 'encoding':
            if s.binary or not good:
                continue
            cut = int(a['where'] * len(good))
            bad = good[:cut] + b'\xff\xfe' + good[cut:]
        elif how == 'missing':
            os.remove(path)
        elif how == 'directory':
            os.remove(path)
            os.mkdir(path)
        if bad is None:
            continue
        if bad is not good:
            with open(path, 'wb') as f:
                f.write(bad)
        if how == 'io' or how == 'sigint':
            n = count(s, path, root, a)
            if not n:
                continue
            faults = [{'ops': [a['op']], 'nth': int(a['nth'] * n), 'action': 'errno' if how == 'io' else 'sigint',
                       'arg': a['errno'], 'sticky': a['sticky'] and how == 'io'}]
        failed = None
        interrupt = None
        if how == 'line':
            st = sched.Steps()
            with st:
                s.load(path)
            interrupt = 1 + int(a['where'] * st.n)
        simio.arm([root], faults, rchunk=a['rchunk'])
        try:
            if interrupt:
                with sched.Steps(interrupt_at=interrupt):
                    s.load_into(obj, path)
            else:
                s.load_into(obj, path)
        except KeyboardInterrupt:
            failed = 'KeyboardInterrupt'
        except Exception as e:
            failed = type(e).__name__
        fired = simio.fired(len(faults))
        handles = simio.open_handles()
        simio.disarm()
        ctx.log(how, failed, fired)
        ctx.state((plan['subject'], how, a['what'] if how == 'malformed' else a['op'], failed))
        if how == 'line':
            ctx.fault('KeyboardInterrupt', 1 if failed else 0)
            must = False
        elif faults:
            must = fired[0] > 0
            ctx.fault('SIGINT' if how == 'sigint' else a['errno'], fired[0])
        else:
            ctx.fault(how)
        what = '{}: loading a file which {}'.format(plan['subject'], {
            'io': 'cannot be read', 'malformed': 'is malformed', 'encoding': 'is not utf-8', 'missing': 'is missing',
            'directory': 'is a directory', 'sigint': 'is being read is interrupted', 'line': 'is fine is interrupted'}[how])
        ctx.check(failed is not None or not must, 'silent', what + ': nothing is reported')
        ctx.check(handles == 0, 'open-file', what + ': a file stays open')
        ctx.count('evaluations')
        after = s.view(obj)
        if failed is None:
            if how in ('io', 'sigint', 'line') and after != want:
                raise Violation('fidelity', what + ': it returns another model', difference=first_difference(want, after))
        elif how == 'line':
            # the interrupt may arrive when everything was replaced
            if after != before and after != want:
                raise Violation('half-loaded', what + ': the object is neither as before nor as loaded', difference=first_difference(before, after))
        elif after != before:
            raise Violation('half-loaded', what + ': the object has changed', difference=first_difference(before, after))
        # everything is fine again
        if how == 'directory':
            os.rmdir(path)
        with open(path, 'wb') as f:
            f.write(good)
        if a['where'] < 0.5 or how == 'line':
            s.load_into(obj, path)
            after = s.view(obj)
            if after != want:
                raise Violation('retry', '{}: loading again after a failure gives another model'.format(plan['subject']),
                                difference=first_difference(want, after))
            ctx.count('evaluations')
    ctx.interesting({'subject': plan['subject'], 'attempts': [x['how'] for x in plan['attempts']]})


def count(s, path, root, a):
    simio.arm([root], rchunk=a['rchunk'])
    s.load(path)
    n = simio.counts()[a['op']]
    simio.disarm()
    return n
