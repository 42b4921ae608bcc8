"""C02: what is saved is what is loaded, over histories of training, removing, saving, loading and restarting."""
import copy
import os

from sim import simio
from sim.canon import first_difference
from sim.kernel import Inapplicable, Violation
from .subjects import LOADABLE, SUBJECTS


def gen_plan(rng, index, tier):
    name = LOADABLE[index % len(LOADABLE)]
    s = SUBJECTS[name]
    n = rng.randint(2, 9)
    ops = []
    for _ in range(n):
        what = rng.choices(['save', 'load', 'mutate', 'build', 'restart', 'continue'], [5, 5, 4, 1, 2, 2])[0]
        op = {'op': what, 'obj': rng.randint(0, 1), 'slot': rng.randint(0, 1),
              'io': {'wchunk': rng.choice([0, 0, 1, 7, 100]), 'rchunk': rng.choice([0, 0, 1, 3, 50]),
                     'eintr': [rng.randint(0, 6), rng.randint(0, 6)] if rng.random() < 0.5 else [],
                     'short': [rng.randint(0, 4), rng.randint(1, 9)] if rng.random() < 0.5 else []}}
        if what == 'mutate' or what == 'continue':
            op['change'] = s.gen_op(rng)
        if what == 'build':
            op['data'] = s.gen(rng)
        ops.append(op)
    return {'subject': name, 'data': [s.gen(rng), s.gen(rng)], 'ops': ops + [
        {'op': 'save', 'obj': 0, 'slot': 0, 'io': {}}, {'op': 'load', 'obj': 1, 'slot': 0, 'io': {}}],
        'names': rng.choice([['a', 'b'], ['m.txt', 'm.txt2'], ['한글 이름', 'b.vocab'], ['x/y', 'x.y']])}


def perturb(ctx, root, io):
    faults = []
    e = io.get('eintr') or []
    if len(e) == 2:
        faults += [{'ops': ['read'], 'nth': e[0], 'action': 'errno', 'arg': 'EINTR'},
                   {'ops': ['write'], 'nth': e[1], 'action': 'errno', 'arg': 'EINTR'},
                   {'ops': ['openr', 'openw'], 'nth': e[0] % 2, 'action': 'errno', 'arg': 'EINTR'}]
    sh = io.get('short') or []
    if len(sh) == 2:
        faults += [{'ops': ['read', 'write'], 'nth': sh[0], 'action': 'short', 'arg': max(1, sh[1])}]
    simio.arm([root], faults, wchunk=io.get('wchunk', 0), rchunk=io.get('rchunk', 0))
    return faults


def end(ctx, faults, what):
    fired = simio.fired(len(faults))
    simio_handles = simio.open_handles()
    c = simio.counts()
    simio.disarm()
    for f, n in zip(faults, fired):
        ctx.fault('eintr' if f.get('arg') == 'EINTR' else 'short-io', n)
    ctx.count('io_operations', sum(c.values()))
    ctx.log(what, fired, sorted(c.items()))
    ctx.check(simio_handles == 0, 'open-file', '{} keeps a file open'.format(what))


def execute(plan, ctx):
    s = SUBJECTS[plan['subject']]
    root = os.path.join(ctx.scratch, 'd')
    os.makedirs(os.path.join(root, 'x'))
    if len(plan['names']) < 2 or len(plan['data']) < 2 or not all(plan['names']) or plan['names'][0] == plan['names'][1]:
        raise Inapplicable()
    paths = [os.path.join(root, n) for n in plan['names']]
    if s.path(paths[0]) == s.path(paths[1]):
        raise Inapplicable()
    objs = [s.build(d) for d in plan['data']]
    views = [s.view(o) for o in objs]           # as a user saw them last
    expected = [None, None]                     # what is in the files
    contents = [None, None]

    def read(i):
        p = s.path(paths[i])
        return open(p, 'rb').read() if os.path.exists(p) else None

    def same(kind, what, got, want):
        ctx.count('evaluations')
        if got != want:
            raise Violation(kind, '{}: {}'.format(plan['subject'], what),
                            difference=first_difference(want, got))

    n_saves = n_loads = 0
    history = []
    for op in plan['ops']:
        i, k, what = op['obj'], op['slot'], op['op']
        history.append(what[0])
        if what == 'build':
            objs[i] = s.build(op['data'])
        elif what == 'mutate':
            s.mutate(objs[i], op['change'])
        elif what == 'save':
            want = s.saved_view(objs[i])
            before = s.view(objs[i])
            f = perturb(ctx, root, op['io'])
            s.save(objs[i], paths[k])
            end(ctx, f, 'save')
            n_saves += 1
            same('changed-by-saving', 'saving changes the object', s.view(objs[i]), before)
            expected[k], contents[k] = want, read(k)
            same('fidelity', 'a fresh object which loads the file differs from the saved one',
                 s.view(s.load(paths[k])), want)
        elif what == 'load' and expected[k] is not None:
            f = perturb(ctx, root, op['io'])
            s.load_into(objs[i], paths[k])
            end(ctx, f, 'load')
            n_loads += 1
            same('fidelity', 'an object which loads the file differs from the saved one', s.view(objs[i]), expected[k])
        elif what == 'restart' and expected[k] is not None:
            def other():
                o = s.load(paths[k])
                s.save(o, os.path.join(root, 'again'))
                return s.view(o), s.view(s.load(os.path.join(root, 'again')))
            out = ctx.pristine(other)
            if out[0] != 'ok':
                raise Violation('fidelity', '{}: loading in another process fails: {}'.format(plan['subject'], out[1:3]))
            same('fidelity', 'another process which loads the file sees a different model', out[1][0], expected[k])
            same('fidelity', 'saving a loaded model again changes it', out[1][1], expected[k])
        elif what == 'continue' and expected[k] is not None and s.continuable:
            # a loaded model is used further like any other which holds the same
            a, b = s.load(paths[k]), copy.deepcopy(objs[i])
            s.load_into(b, paths[k])
            s.mutate(a, op['change'])
            s.mutate(b, op['change'])
            same('continue', 'two objects which loaded the same file go on differently', s.view(b), s.view(a))
            if s.view(objs[i]) == expected[k]:
                c = copy.deepcopy(objs[i])
                s.mutate(c, op['change'])
                same('continue', 'a loaded model goes on differently from the saved one', s.view(a), s.view(c))
        views[i] = s.view(objs[i])
        same('other-object', 'an operation on one object changes another', s.view(objs[1 - i]), views[1 - i])
        for j in (0, 1):
            if contents[j] is not None and read(j) != contents[j]:
                raise Violation('other-file', '{}: {} changes a saved file'.format(plan['subject'], what))
        ctx.state((plan['subject'], ''.join(history[-3:]), expected[k] is not None))
    if n_saves and n_loads:
        ctx.interesting({'subject': plan['subject'], 'ops': [o['op'] for o in plan['ops']]})
    ctx.log(views)
