"""C13: term document matrices: vocabulary, codes, matrices in memory and in files and co-occurrence matrices are one consistent
and exact whole, through every history of fitting, failing, saving, loading and concurrent use. The oracle counts on its own."""
import os
import shutil

from sim import gen, sched, simio
from sim.kernel import Inapplicable, Violation

from .c05 import steps_of, writes_of
from .subjects import read_matrix_market
from .trainables import FaultyCorpus, Flaky, corpus_of, tokenizer_of

OPS = ['fit', 'fit', 'fit_transform', 'fit_to_file', 'fail', 'fail', 'fail', 'transform', 'to_file', 'to_file', 'changing', 'save', 'load', 'load',
       'contexts', 'threads']


DEFAULTS = {'tok': 'words', 'min_tf': 0, 'max_tf': 99999999, 'min_df': 0, 'max_df': 1.0, 'verbose': True}
CONTEXTS = {'windows': 3, 'min_tf': 10, 'tok': 'words', 'dynamic': False, 'verbose': True}
NAMES = {'tok': 'tokenizer', 'dynamic': 'dynamic_weight'}


class Changing:
    """Documents which are not the same in every pass"""

    def __init__(self, sents, cut, at, becomes):
        self.sents, self.cut, self.at, self.passes = sents, cut, at, 0
        rest = sents[cut:]
        if becomes == 'shorter':
            rest = [' '.join(d.split()[:1]) for d in rest]
        elif becomes == 'longer':
            rest = [d + ' ' + sents[0] for d in rest]
        elif becomes == 'turned':
            rest = rest[::-1]
        self.later = sents[:cut] + ([] if becomes == 'fewer' else rest)

    def of(self, n):
        return self.sents if n <= self.at else self.later

    def __iter__(self):
        self.passes += 1
        return iter(self.of(self.passes))

    def __len__(self):
        return len(self.sents)


def gen_plan(rng, index, tier):
    corpora = []
    v = gen.vocabulary(rng)
    for _ in range(3):
        if rng.random() < 0.5:
            corpora.append(gen.corpus(rng, 1, 14, v))
        else:
            alphabet = rng.choice(['가나', '가나다', '가나ab1ㅋ', 'aAbB'])
            corpora.append([' '.join(gen.small_token(rng, alphabet, 1, 3) for _ in range(rng.randint(0 if rng.random() < 0.2 else 1, 9)))
                            for _ in range(rng.randint(1, 15))])
    config = [{'min_tf': rng.choice([0, 0, 1, 2, 3]), 'max_tf': rng.choice([99999999, 99999999, 5, 2]), 'min_df': rng.choice([0, 0, 0.1, 0.34]),
               'max_df': rng.choice([1.0, 1.0, 0.5, 0.9]), 'verbose': rng.random() < 0.6, 'tok': rng.choice(['words', 'words', 'chars', 'prefix', 'letters', 'ngrams'])}
              for _ in range(2)]
    if rng.random() < 0.25:
        config = [dict(c, omit=[k for k in c if rng.random() < 0.4]) for c in config]
    ops = []
    for _ in range(rng.randint(2, 10)):
        op = {'op': rng.choice(OPS), 'on': rng.randint(0, 1), 'corpus': rng.randint(0, 2), 'form': rng.choice(['list', 'iter', 'file', 'once']),
              'slot': rng.randint(0, 1), 'where': rng.random()}
        if op['op'] == 'fail':
            op.update(what=rng.choice(['fit', 'fit_transform', 'fit_to_file', 'to_file', 'transform', 'load', 'save']),
                      how=rng.choice(['corpus', 'tokenizer', 'stdout', 'line', 'io', 'io']), exc='', **{'pass': rng.choice([0, 0, 1, 2])},
                      io=rng.choice(['write', 'openw', 'fsync', 'rename', 'read', 'openr']))
        elif op['op'] == 'changing':
            op.update(cut=rng.random(), at=rng.choice([0, 1, 1]), becomes=rng.choice(['fewer', 'fewer', 'shorter', 'longer', 'turned']))
        elif op['op'] == 'contexts':
            op.update(windows=rng.choice([1, 2, 3, 5]), min_tf=rng.choice([1, 1, 2, 3]), dynamic=rng.random() < 0.5, verbose=rng.random() < 0.5,
                      tok=rng.choice(['words', 'chars', 'prefix', 'letters', 'ngrams']))
            if rng.random() < 0.3:
                op['omit'] = [k for k in CONTEXTS if rng.random() < 0.5]
        elif op['op'] == 'threads':
            op.update(tasks=[[[rng.choice(['transform', 'to_file', 'encode']), rng.randint(0, 2)] for _ in range(rng.randint(1, 2))]
                             for _ in range(rng.randint(2, 3))],
                      switches=gen.gaps(rng, rng.choice([1, 2, 4, 10]), rng.choice([5, 30, 100])))
        ops.append(op)
    return gen.make_large({'corpora': corpora, 'config': config, 'ops': ops, 'wchunk': rng.choice([0, 0, 5]), 'rchunk': rng.choice([0, 0, 7])}, index, 80, (480, 1200), 4)


# ------------------------------------------------------------------ model

def vocabulary_rule(docs, config, tok):
    """term -> frequency of the terms which must be in the vocabulary"""
    tf, df = {}, {}
    for d in docs:
        ws = tok(d)
        for w in ws:
            tf[w] = tf.get(w, 0) + 1
        for w in set(ws):
            df[w] = df.get(w, 0) + 1
    lo, hi = int(len(docs) * config['min_df']), int(len(docs) * config['max_df'])
    return {w: n for w, n in tf.items() if config['min_tf'] <= n <= config['max_tf'] and lo <= df[w] <= hi}


def rows_of(docs, tok, codes):
    """[(row, column, count)], sorted"""
    out = []
    for i, d in enumerate(docs):
        row = {}
        for w in tok(d):
            if w in codes:
                row[codes[w]] = row.get(codes[w], 0) + 1
        out += [[i, j, n] for j, n in sorted(row.items())]
    return out


def cells_of(x):
    x = x.tocoo()
    cells = {}
    for i, j, n in zip(x.row.tolist(), x.col.tolist(), x.data.tolist()):
        cells[(i, j)] = cells.get((i, j), 0) + n
    return [[i, j, n] for (i, j), n in sorted(cells.items())]


def expect_matrix(ctx, x, docs, tok, codes, when):
    ctx.count('evaluations')
    if tuple(x.shape) != (len(docs), len(codes)):
        raise Violation('shape', 'a term document matrix is not (documents, terms) ({})'.format(when), shape=list(x.shape), is_=[len(docs), len(codes)])
    got, want = cells_of(x), rows_of(docs, tok, codes)
    if got != want:
        raise Violation('matrix', 'a term document matrix does not hold the counts of the documents ({})'.format(when),
                        cells=[c for c in got if c not in want][:3], missing=[c for c in want if c not in got][:3])


def expect_file(ctx, path, docs, tok, codes, when):
    ctx.count('evaluations')
    try:
        got = read_matrix_market(path)
    except (ValueError, IndexError) as e:
        raise Violation('file', 'a matrix file is malformed: {} ({})'.format(e, when))
    want = rows_of(docs, tok, codes)
    shape, cells = plain(got)
    if shape != [len(docs), len(codes)] or cells != want:
        raise Violation('file', 'a matrix file does not hold the counts of the documents ({})'.format(when), shape=shape, is_=[len(docs), len(codes)],
                        cells=[c for c in cells if c not in want][:3], missing=[c for c in want if c not in cells][:3])


def plain(canonical):
    import json
    x = json.loads(json.dumps(canonical))

    def strip(y):
        if isinstance(y, list) and len(y) == 2 and y[0] in ('list', 'tuple') and isinstance(y[1], list):
            return [strip(z) for z in y[1]]
        return [strip(z) for z in y] if isinstance(y, list) else y
    x = strip(x)
    return x[1], x[2]


def expect_vectorizer(ctx, v, codes, order, words, tok, docs, when):
    """v has the vocabulary `codes` (term -> index)"""
    ctx.count('evaluations')
    n = len(codes)
    if dict(v.vocabulary_) != codes or list(v.idx2vocab) != order or len(v) != n or v.n_vocabs != n or v.vocabs() != order:
        raise Violation('vocabulary', 'the views of a vocabulary do not agree ({})'.format(when), terms=n, got=[len(v.vocabulary_), len(v.idx2vocab), len(v)])
    for d in docs[:4]:
        ws = [w for w in tok(d) if w in codes]
        codes_of = v.encode_a_doc_to_list(d)
        bow = v.encode_a_doc_to_bow(d)
        want = {}
        for w in ws:
            want[codes[w]] = want.get(codes[w], 0) + 1
        if codes_of != [codes[w] for w in ws] or v.decode_from_list(codes_of) != ws:
            raise Violation('codes', 'a document is not the decoded form of its code ({})'.format(when), doc=d)
        if bow != want or v.decode_from_bow(bow) != {order[j]: k for j, k in want.items()}:
            raise Violation('codes', 'a bag of words is not the decoded form of its code ({})'.format(when), doc=d)
    if v.decode_from_list([-1, n, n + 3]) != [] or v.decode_from_bow({-1: 2, n: 1}) != {}:
        raise Violation('codes', 'codes outside of the vocabulary are decoded ({})'.format(when))


def expect_contexts(ctx, op, x, terms, docs, tok):
    ctx.count('evaluations')
    tf = {}
    for d in docs:
        for w in tok(d):
            tf[w] = tf.get(w, 0) + 1
    keep = {w: n for w, n in tf.items() if n >= op['min_tf']}
    if sorted(terms) != sorted(keep) or [tf[w] for w in terms] != sorted(keep.values(), reverse=True):
        raise Violation('context-terms', 'terms of a (word, context) matrix are not the frequent words in order')
    index = {w: i for i, w in enumerate(terms)}
    want = {}
    for d in docs:
        ws = tok(d)
        for i, a in enumerate(ws):
            for j, b in enumerate(ws):
                k = abs(i - j)
                if 1 <= k <= op['windows'] and a in keep and b in keep:
                    want[(index[a], index[b])] = want.get((index[a], index[b]), 0) + ((op['windows'] - k + 1) / op['windows'] if op['dynamic'] else 1)
    got = {(i, j): n for i, j, n in cells_of(x)}
    if tuple(x.shape) != (len(keep), len(keep)) or set(got) != set(want) or any(abs(got[k] - want[k]) > 1e-9 for k in want):
        raise Violation('contexts', 'a (word, context) matrix does not hold the co-occurrences', shape=list(x.shape), terms=len(keep))


# ------------------------------------------------------------------ run

def execute(plan, ctx):
    plan = gen.unfold(plan)
    from soynlp.vectorizer import BaseVectorizer, sent_to_word_contexts_matrix
    if len(plan['corpora']) < 3 or len(plan['config']) < 2 or any(not c for c in plan['corpora']):
        raise Inapplicable()
    os.makedirs('d')
    root = os.path.abspath('d')
    config = [{k: DEFAULTS[k] if k in c.get('omit', ()) else x for k, x in c.items()} for c in plan['config']]
    toks = [tokenizer_of(c['tok']) for c in config]
    flaky = [Flaky(t) for t in toks]
    vs = [BaseVectorizer(**{'tokenizer' if k == 'tok' else k: f if k == 'tok' else c[k] for k in DEFAULTS if k not in c['omit']})
          if c.get('omit') else
          BaseVectorizer(tokenizer=f, verbose=c['verbose'], min_tf=c['min_tf'], max_tf=c['max_tf'], min_df=c['min_df'], max_df=c['max_df'])
          for f, c in zip(flaky, config)]
    for k, v in enumerate(vs):
        if v.tokenizer is not flaky[k]:
            flaky[k] = v.tokenizer = Flaky(v.tokenizer)
    orders = [[], []]
    files, vocabs = {}, {}
    last = None

    def codes_of(i):
        return {w: k for k, w in enumerate(orders[i])}

    def fitted(i, docs, when):
        want = vocabulary_rule(docs, config[i], toks[i])
        order = list(vs[i].idx2vocab)
        if sorted(order) != sorted(want):
            raise Violation('vocabulary', 'the vocabulary is not the terms within the frequency limits ({})'.format(when),
                            terms=sorted(set(order) ^ set(want))[:5])
        if [want[w] for w in order] != sorted(want.values(), reverse=True):
            raise Violation('order', 'terms are not in the order of their frequencies ({})'.format(when))
        orders[i] = order

    for n, op in enumerate(plan['ops']):
        i = op['on']
        v, docs, what = vs[i], plan['corpora'][op['corpus']], op['op']
        if op['form'] == 'file' and not all(d.strip() for d in docs):
            raise Inapplicable()
        passes = {'fit': 1, 'transform': 1}.get(op.get('what', what))
        form = op['form'] if op['form'] != 'once' or passes == 1 else 'list'
        cpath = os.path.join(root, 'corpus{}'.format(n))

        def corpus(form=form):
            return iter(docs) if form == 'once' else corpus_of(form, docs, cpath)
        path, vpath = os.path.join(root, 'x{}'.format(op['slot'])), os.path.join(root, 'v{}.vocab'.format(op['slot']))
        io = dict(wchunk=plan['wchunk'], rchunk=plan['rchunk'])

        def do(what, docs_):
            if what == 'fit':
                v.fit(docs_)
            elif what == 'fit_transform':
                return v.fit_transform(docs_)
            elif what == 'fit_to_file':
                v.fit_to_file(docs_, path)
            elif what == 'to_file':
                v.to_file(docs_, path)
            elif what == 'transform':
                return v.transform(docs_)
            elif what == 'load':
                v.load(vpath)
            elif what == 'save':
                v.save(vpath)
            return None

        def done(what, x, when):
            if what.startswith('fit'):
                fitted(i, docs, when)
            if what.endswith('transform'):
                expect_matrix(ctx, x, docs, toks[i], codes_of(i), when)
            if what.endswith('to_file'):
                files[op['slot']] = (docs, toks[i], codes_of(i))
            if what == 'save':
                vocabs[op['slot']] = list(orders[i])
            if what == 'load':
                orders[i] = list(vocabs[op['slot']])

        when = what
        if what in ('fit', 'fit_transform', 'fit_to_file', 'to_file', 'transform', 'save') or (what == 'load' and op['slot'] in vocabs):
            c = corpus()
            simio.arm([root], **io)
            x = do(what, c)
            simio.disarm()
            done(what, x, when)
        elif what == 'fail' and (op['what'] != 'load' or op['slot'] in vocabs):
            when = '{} failed: {}'.format(op['what'], op['how'])
            outcome, x = disturbed(ctx, op, lambda c: do(op['what'], c), corpus, flaky[i], root, io)
            if outcome == 'completed':
                done(op['what'], x, when)
            else:
                # what fails before the fit is complete keeps the old vocabulary, later the new one is there
                if op['what'].startswith('fit') and list(v.idx2vocab) != orders[i]:
                    if op['what'] == 'fit' and outcome == 'failed':
                        raise Violation('lost', 'a fit which failed changes the vocabulary ({})'.format(when))
                    fitted(i, docs, when)
                # an interrupt may arrive after the work was done
                if outcome == 'interrupted' and op['what'] == 'save' and os.path.exists(vpath):
                    with open(vpath, encoding='utf-8') as f:
                        if f.read() == ''.join(w + '\n' for w in orders[i]):
                            vocabs[op['slot']] = list(orders[i])
                if outcome == 'interrupted' and op['what'] == 'load' and list(v.idx2vocab) == vocabs[op['slot']]:
                    orders[i] = list(vocabs[op['slot']])
                if outcome == 'interrupted' and op['what'].endswith('to_file') and os.path.exists(path):
                    try:
                        expect_file(ctx, path, docs, toks[i], codes_of(i), when)
                        files[op['slot']] = (docs, toks[i], codes_of(i))
                    except Violation:
                        pass        # must be the old one, as is checked below
        elif what == 'changing':
            docs_ = Changing(docs, int(op['cut'] * len(docs)), op['at'], op.get('becomes', 'fewer'))
            if docs_.cut < len(docs):
                try:
                    v.to_file(docs_, path)
                except (ValueError, UnboundLocalError):
                    ctx.fault('changing-documents')
                else:
                    # nothing to complain about when what is written is as large as what was announced
                    first, last = docs_.of(1), docs_.of(docs_.passes)
                    if len(first) != len(last) or len(rows_of(first, toks[i], codes_of(i))) != len(rows_of(last, toks[i], codes_of(i))):
                        try:
                            read_matrix_market(path)
                        except (ValueError, IndexError) as e:
                            raise Violation('file', 'a matrix file of documents which are not the same in every pass is malformed: {}'.format(e))
                        raise Violation('file', 'documents which are not the same in every pass are written')
                    files[op['slot']] = (last, toks[i], codes_of(i))
        elif what == 'contexts':
            omit = op.get('omit', ())
            op = dict(op, **{k: CONTEXTS[k] for k in omit})
            if 'min_tf' in omit:
                docs = docs * (3 + len(docs) % 3)
            tok = tokenizer_of(op['tok'])
            if sum(len(tok(d)) for d in docs):
                args = {'windows': op['windows'], 'min_tf': op['min_tf'], 'tok': tok, 'dynamic': op['dynamic'], 'verbose': op['verbose']}
                x, terms = sent_to_word_contexts_matrix(docs if 'min_tf' in omit else corpus('list' if op['form'] == 'once' else op['form']),
                                                        **{NAMES.get(k, k): a for k, a in args.items() if k not in omit})
                expect_contexts(ctx, op, x, terms, docs, tok)
        elif what == 'threads':
            results = [[] for _ in op['tasks']]

            def body(k):
                def fn():
                    for m, (name, c) in enumerate(op['tasks'][k]):
                        d = plan['corpora'][c]
                        if name == 'transform':
                            results[k].append(v.transform(d))
                        elif name == 'encode':
                            results[k].append([v.encode_a_doc_to_list(s) for s in d])
                        else:
                            p = os.path.join(root, 't{}-{}-{}'.format(n, k, m))
                            v.to_file(d, p)
                            results[k].append(p)
                return fn
            s = sched.Scheduler([body(k) for k in range(len(op['tasks']))], op['switches'])
            out = s.run()
            ctx.fault('thread-switch', len(s.trace))
            for k, (status, value) in enumerate(out):
                if status == 'raised':
                    raise Violation('thread', 'a vectorizer fails when threads share it: {}: {}'.format(type(value).__name__, value), tasks=op['tasks'])
                for (name, c), r in zip(op['tasks'][k], results[k]):
                    d = plan['corpora'][c]
                    if name == 'transform':
                        expect_matrix(ctx, r, d, toks[i], codes_of(i), what)
                    elif name == 'to_file':
                        expect_file(ctx, r, d, toks[i], codes_of(i), what)
                    elif r != [[codes_of(i)[w] for w in toks[i](s) if w in codes_of(i)] for s in d]:
                        raise Violation('codes', 'codes of documents are wrong when threads share a vectorizer')
        for k in (0, 1):
            expect_vectorizer(ctx, vs[k], codes_of(k), orders[k], None, toks[k], plan['corpora'][op['corpus']], when)
        for slot, (d, tok, codes) in files.items():
            expect_file(ctx, os.path.join(root, 'x{}'.format(slot)), d, tok, codes, when)
        left = [f for f in os.listdir(root) if f not in ('x0', 'x1', 'v0.vocab', 'v1.vocab') and not f.startswith(('corpus', 't'))]
        if left:
            raise Violation('left-over', 'a file is left behind ({})'.format(when), files=left)
        ctx.state((when, last, plan['config'][i]['tok'], op.get('form'), bool(orders[i]), bool(files)))
        last = when
        ctx.log(n, when, orders)
    ctx.interesting({'operations': [o['op'] for o in plan['ops']]})


def dry(root, fn):
    """Value of fn, whose files are forgotten"""
    shutil.copytree(root, root + '-kept')
    try:
        return fn()
    finally:
        shutil.rmtree(root)
        os.rename(root + '-kept', root)


def disturbed(ctx, op, do, corpus, flaky, root, io):
    """-> (completed | failed | interrupted, value)"""
    how, exc = op['how'], RuntimeError('injected')
    if how == 'corpus':
        c = corpus('iter')
        c.fault = (op['pass'], int(op['where'] * len(c)) % len(c), exc)
        try:
            x = do(c)
        except RuntimeError as e:
            if e is not exc:
                raise
            ctx.fault('corpus')
            return 'failed', None
        if c.fired:
            raise Violation('swallowed', 'a failing corpus is ignored')
        return 'completed', x
    c = corpus()
    if how == 'tokenizer':
        flaky.fuse, flaky.exc = int(op['where'] * 2.5 * 8), exc
        try:
            x = do(c)
        except RuntimeError as e:
            if e is not exc:
                raise
            ctx.fault('tokenizer')
            return 'failed', None
        fired, flaky.fuse = flaky.fuse is None, None
        if fired:
            raise Violation('swallowed', 'a failing tokenizer is ignored')
        return 'completed', x
    if how == 'stdout':
        writes = dry(root, lambda: writes_of(ctx, lambda: do(corpus())))
        if not writes:
            return 'completed', do(c)
        ctx.sink.fail_at = ctx.sink.writes + 1 + int(op['where'] * writes)
        try:
            do(c)
        except BrokenPipeError:
            ctx.fault('stdout')
            return 'interrupted', None
        finally:
            ctx.sink.fail_at = None
        raise Violation('swallowed', 'a failing output is ignored')
    if how == 'line':
        total = dry(root, lambda: steps_of(ctx, lambda: do(corpus())))
        if total < 1:
            return 'completed', do(c)
        s = sched.Steps(interrupt_at=1 + int(op['where'] * total), exc=KeyboardInterrupt)
        try:
            with s:
                x = do(c)
        except KeyboardInterrupt:
            if s.where is None:
                raise
            ctx.fault('interrupted-line')
            return 'interrupted', None
        return 'completed', x
    fault = {'ops': [op['io']], 'nth': int(op['where'] * 4), 'action': 'errno', 'arg': 'EIO'}
    simio.arm([root], [fault], **io)
    try:
        x = do(c)
    except OSError:
        if not simio.fired(1)[0]:
            raise
        ctx.fault('io-' + op['io'])
        return 'failed' if op['what'] != 'fit_to_file' or op['io'] in ('read', 'openr') else 'interrupted', None
    finally:
        fired = simio.fired(1)[0]
        simio.disarm()
    if fired:
        raise Violation('swallowed', 'an I/O error is ignored', io=op['io'])
    return 'completed', x
