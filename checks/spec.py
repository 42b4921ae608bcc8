"""Constants of the checks; read by the main process, which does not import soynlp."""

CHECKS = {}

_IO_REAL = ['soynlp (all code, unmodified)', 'CPython 3.12 io, pickle, json', 'libc below the seam', 'kernel file system (a scratch directory)']
_IO_STUB = ['libc I/O entry points (sim/simio.c decides results, crashes, interruptions)',
            'durability after power loss (model of the page cache in sim/simio.py)']

CHECKS['C01'] = dict(
    RUNS={'quick': 2000, 'thorough': 40000}, LEVEL='exploration',
    RULE='a run counts when at least one save was attempted under a fault plan; distinct by digest of attempts, faults fired and I/O trace',
    STATES='(subject, kind of old content, path style, kind of disturbance, content found afterwards)',
    REAL=_IO_REAL, STUB=_IO_STUB,
    ASSUMPTIONS=['rename() is atomic and ordered, as POSIX file systems give it',
                 'bytes covered by fsync() survive a power loss, other bytes may be lost or zero'])

CHECKS['C02'] = dict(
    RUNS={'quick': 3000, 'thorough': 60000}, LEVEL='exploration',
    RULE='a run counts when its history holds a save and a load that returned; distinct by digest of I/O counts and views',
    STATES='(subject, last three operations of the history, file present)',
    REAL=_IO_REAL, STUB=_IO_STUB,
    ASSUMPTIONS=['tokens hold no whitespace (the text formats separate by whitespace)'])

CHECKS['C03'] = dict(
    RUNS={'quick': 1500, 'thorough': 50000}, LEVEL='exploration',
    RULE='a run counts when at least one load or construction was attempted on a bad file or under an injected fault; distinct by digest of faults fired and outcomes',
    STATES='(subject or resource, disturbance, position, outcome)',
    REAL=_IO_REAL, STUB=_IO_STUB[:1],
    ASSUMPTIONS=['a text file cut at the end of a line is a well formed shorter file; that it is shorter cannot be seen'])

CHECKS['C04'] = dict(
    RUNS={'quick': 6000, 'thorough': 100000}, LEVEL='exploration',
    RULE='a run counts when a history of passes over a corpus file was executed; distinct by digest of file content, I/O and schedule',
    STATES='(operation, fault, mode, limits, number of open passes, number of items)',
    REAL=_IO_REAL, STUB=_IO_STUB[:1],
    ASSUMPTIONS=['the file does not change while it is read'])

_RUN_REAL = ['soynlp (all code, unmodified)', 'CPython 3.12', 'numpy, scipy, scikit-learn']

CHECKS['C05'] = dict(
    RUNS={'quick': 1000, 'thorough': 40000}, LEVEL='exploration',
    RULE='a run counts when a fault fired in at least one training; distinct by digest of the outcomes and of the final model',
    STATES='(trainable, kind of corpus, fault, exception, trainings done before, position)',
    REAL=_RUN_REAL + ['libc below the seam'],
    STUB=['corpora and tokenizers which fail on request', 'standard output', 'memory readings (psutil) on request', _IO_STUB[0]],
    ASSUMPTIONS=['an interrupt at an arbitrary line may also arrive after the new model is complete'])

CHECKS['C06'] = dict(
    RUNS={'quick': 900, 'thorough': 40000}, LEVEL='exploration',
    RULE='a run counts when its history of extractions was executed to the end; distinct by digest of results and interruptions',
    STATES='(extractor, operation, disturbance, exception, operation and disturbance before it, candidates given)',
    REAL=_RUN_REAL + ['libc below the seam'],
    STUB=['standard output', 'memory readings (psutil) on request', _IO_STUB[0]],
    ASSUMPTIONS=['feature discovery (extract_pos_feature) is off; it extends the features of an extractor by design',
                 'after an extraction which was asked not to reset the L-R graph, the user resets it'])

CHECKS['C07'] = dict(
    RUNS={'quick': 2500, 'thorough': 60000}, LEVEL='exploration',
    RULE='a run counts when its history of calls was executed to the end; distinct by digest of answers and schedules',
    STATES='(tokenizer, kind of phase, kind of phase before, call) and (tokenizer, number of thread switches, place of the first)',
    REAL=_RUN_REAL, STUB=['thread scheduling (one thread at a time, handed over at lines of soynlp as the plan says)',
                          'standard output'],
    ASSUMPTIONS=['switches happen between lines of soynlp, not inside of a line'])

CHECKS['C08'] = dict(
    RUNS={'quick': 1200, 'thorough': 60000}, LEVEL='exploration',
    RULE=CHECKS['C07']['RULE'],
    STATES='(subject, kind of phase, kind of phase before, call) and (subject, number of thread switches, place of the first)',
    REAL=_RUN_REAL, STUB=CHECKS['C07']['STUB'], ASSUMPTIONS=CHECKS['C07']['ASSUMPTIONS'])

CHECKS['C09'] = dict(
    RUNS={'quick': 700, 'thorough': 40000}, LEVEL='exploration',
    RULE='a run counts when the programs of all of its objects were executed to the end; distinct by digest of results and schedules',
    STATES='(kind of operation, objects in it, thread switches) and the set of objects of a run',
    REAL=_RUN_REAL, STUB=['thread scheduling (one thread at a time, handed over at lines of soynlp as the plan says)',
                          'corpora which fail on request', 'standard output'],
    ASSUMPTIONS=['switches happen between lines of soynlp, not inside of a line',
                 'an L-R graph given for training belongs to the extractor from then on',
                 'scores of tokenizers and resources of extractors are not changed by the caller while it uses them'])

CHECKS['C10'] = dict(
    RUNS={'quick': 800, 'thorough': 20000}, LEVEL='exploration', VARIANTS=3,
    RULE='a run is one execution of a plan by one of three processes; it counts when it was executed to the end; distinct by digest of results',
    STATES='(subject, form of the corpus, verbose, memory readings, number of earlier uses)',
    REAL=_RUN_REAL, STUB=['memory readings (psutil)', 'hash seed, state of the global random generators', 'standard output'],
    ASSUMPTIONS=['scores are compared to 7 digits, because the order of additions of floats is not promised'])

CHECKS['C11'] = dict(
    RUNS={'quick': 6000, 'thorough': 150000}, LEVEL='exploration',
    RULE='a run counts when its history was executed to the end; distinct by digest of the contents after each operation',
    STATES='(operation, operation before it, counter is empty, graph is empty, graph is as it was built)',
    REAL=_RUN_REAL + ['libc below the seam'], STUB=['corpora which fail on request', 'standard output', _IO_STUB[0]],
    ASSUMPTIONS=['a graph which was built empty has no original to which a reset could return',
                 'when pairs of an eojeol were consumed unevenly, its count is that of any of its pairs'])

CHECKS['C12'] = dict(
    RUNS={'quick': 1800, 'thorough': 80000}, LEVEL='exploration',
    RULE='a run counts when its history was executed to the end; distinct by digest of the counts after each operation',
    STATES='(kind of statistics, operation or failure, the one before it, cumulative, pruning, trained before)',
    REAL=_RUN_REAL + ['libc below the seam'], STUB=['corpora which fail on request', 'standard output', _IO_STUB[0]],
    ASSUMPTIONS=['with pruning a count may be anything between that of pruning at every point and that of never pruning',
                 'the table of all words may leave out the entropy of words of the maximal length'])

CHECKS['C13'] = dict(
    RUNS={'quick': 6000, 'thorough': 80000}, LEVEL='exploration',
    RULE='a run counts when its history was executed to the end; distinct by digest of the vocabularies after each operation',
    STATES='(operation or failure, the one before it, tokenizer, form of the corpus, fitted, file written)',
    REAL=_RUN_REAL + ['libc below the seam'],
    STUB=['corpora and tokenizers which fail on request', 'standard output', 'thread scheduling', _IO_STUB[0]],
    ASSUMPTIONS=['terms of equal frequency may come in any order', 'terms hold no whitespace',
                 'stopwords and lowercase have no effect in this version'])

CHECKS['C14'] = dict(
    RUNS={'quick': 1000, 'thorough': 40000}, LEVEL='exploration',
    RULE='a run counts when its history was executed to the end; distinct by digest of the operations and positions of the generators',
    STATES='(operation, kind of random state, matrix, components, operation before it)',
    REAL=_RUN_REAL, STUB=['state of the global random generators', 'thread scheduling'],
    ASSUMPTIONS=['values are compared to 6 digits; linear algebra uses one thread'])

CHECKS['C15'] = dict(
    RUNS={'quick': 5000, 'thorough': 100000}, LEVEL='exploration',
    RULE='a run counts when its history was executed to the end; distinct by digest of the contents and of the tagged sentences',
    STATES='(operation, operation before it, tag is known, form of the argument, empty, saved before)',
    REAL=_RUN_REAL + ['libc below the seam'], STUB=['thread scheduling', _IO_STUB[0]],
    ASSUMPTIONS=['a dictionary is not changed while another thread tags with it', 'words hold no whitespace'])

CHECKS['C16'] = dict(
    RUNS={'quick': 1700, 'thorough': 80000}, LEVEL='exploration',
    RULE='a run counts when its history was executed to the end; distinct by digest of the graphs after each operation',
    STATES='(extractor, operation or failure, the one before it, form of the input, candidates, features, reset, trained)',
    REAL=_RUN_REAL + ['libc below the seam'], STUB=['corpora which fail on request', 'standard output', _IO_STUB[0]],
    ASSUMPTIONS=['tokenization of compounds is that of MaxScoreTokenizer (C07)', 'NewsNounExtractor may leave out any words'])

CHECKS['C17'] = dict(
    RUNS={'quick': 3000, 'thorough': 60000}, LEVEL='exploration',
    RULE='a run counts when its history was executed to the end; distinct by digest of what was extracted after each operation',
    STATES='(extractor, operation or failure, the one before it, settings, trained)',
    REAL=_RUN_REAL + ['libc below the seam'], STUB=['corpora which fail on request', 'standard output', _IO_STUB[0]],
    ASSUMPTIONS=['the rules of conjugation, lemma candidates and normalisation are those of checks/korean.py', 'candidates of an extraction are Korean words'])

CHECKS['C18'] = dict(
    RUNS={'quick': 450, 'thorough': 20000}, LEVEL='exploration',
    RULE='a run counts when its history was executed to the end; distinct by digest of what was trained after each operation',
    STATES='(extractor, operation or failure, the one before it, settings, trained)',
    REAL=_RUN_REAL + ['libc below the seam'], STUB=['corpora which fail on request', 'standard output', _IO_STUB[0]],
    ASSUMPTIONS=['the rules of conjugation, lemma candidates and normalisation are those of checks/korean.py', 'corpora are Korean',
                 'tokenization of compounds is that of MaxScoreTokenizer (C07)'])

CHECKS['C19'] = dict(
    RUNS={'quick': 3500, 'thorough': 100000}, LEVEL='exploration',
    RULE='a run counts when its history was executed to the end; distinct by digest of the matrices and graphs after each operation',
    STATES='(operation, failure, form of the input, probabilities given, operation before it)',
    REAL=_RUN_REAL, STUB=['tokenizers which fail on request', 'standard output', 'thread scheduling'],
    ASSUMPTIONS=['pairs whose PMI equals the threshold to 9 digits may be kept or not', 'items which are equally similar may come in any order',
                 'columns of probability zero associate with nothing'])

CHECKS['C20'] = dict(
    RUNS={'quick': 3500, 'thorough': 100000}, LEVEL='exploration',
    RULE='a run counts when its history was executed to the end; distinct by digest of answers and schedules',
    STATES='(operation, failure, tokenizer, structured or flat, with tolerance, operation before it)',
    REAL=_RUN_REAL, STUB=['standard output', 'thread scheduling'],
    ASSUMPTIONS=['eojeols are shorter than 200 characters, after which MaxScoreTokenizer stops looking for words',
                 'scores which differ from the best one by the tolerance up to rounding may count or not'])
