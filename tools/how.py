# read by design.py

HOW['C01'] = (
    'an object with an old file (or none, a link, a read-only file, files of similar names beside it) attempts one to three saves; each is disturbed '
    'in one way; then everything in the directory is read.',
    'bytes of the old file or of an undisturbed save of the same object, bystanders byte by byte, modes, links, open descriptors; after a crash '
    'whatever the disk model left. Readers (threads and processes) must load one complete version.',
    'crash before or after every operation, power loss with partial, zeroed and reordered unsynced pages, EIO/ENOSPC/EDQUOT/EACCES/EROFS/EMFILE, '
    'short writes, EINTR, SIGINT, interrupts and MemoryError at any line, unencodable content, failing input, concurrent threads and processes.',
    'contents of up to a few dozen lines, at most three savers and two readers; about 10 s.')
HOW['C02'] = (
    'a history of training, changing, saving, loading, restarting in a new process.',
    'the object which saved is the model of the one which loads; both go on in step and must stay equal; bytes of a second save equal the first.',
    'short reads and writes at any position, EINTR; new processes with other hash seeds.',
    'histories of up to 9 operations, tokens without whitespace (odd characters, long tokens, separators of the formats included); about 9 s.')
HOW['C03'] = (
    'a load (or the construction of an object which reads resources) meets a file which is cut, edited, wrongly encoded or missing, or a failing read.',
    'it must raise, and the observable state must be equal to that before; repeated with the cause gone it must succeed; a fresh construction '
    'afterwards equals that of a pristine process.',
    'EIO, EACCES, EMFILE, ENOMEM, ESTALE at any read or open, sticky or once; SIGINT; short reads; interrupts at any line; malformed lines, bad '
    'numbers, cuts, invalid UTF-8.',
    'one to three attempts per run; about 18 s.')
HOW['C04'] = (
    'several iterators and length queries over corpus files, interleaved, abandoned, garbage collected; file reading fails at some operation.',
    'the documents and sentences which a plain parser finds in the bytes; descriptors counted in /proc/self/fd.',
    'read errors at any position, EINTR, SIGINT, short reads, threads with their own passes.',
    'up to 12 documents, odd blanks and empty lines; about 7 s.')
HOW['C05'] = (
    'one to three trainings, at least the last of which is disturbed, then a query of the whole model, then an undisturbed training.',
    'the model before the failed training (queried before), or for late interrupts the model of an undisturbed training in a pristine process; the '
    'final training must equal that of a pristine process.',
    'corpus raising or yielding a bad item in each pass, tokenizer raising, read errors of corpus and resource files, failing output, failing memory '
    'readings, interrupts and MemoryError at any line, with emphasis on the last lines.',
    'corpora of up to 20 sentences, all trainable classes; about 35 s, because each run needs pristine processes.')
HOW['C06'] = (
    'a trained extractor extracts several times with differing parameters and candidates, some disturbed.',
    'each extraction equals the first extraction with these parameters in a pristine process which only trained; the L-R graph equals that after training.',
    'interrupts at any line (also close to the end), failing output, failing log files, failing memory readings.',
    'up to 6 extractions; about 30 s.')
HOW['C07'] = (
    'calls of one tokenizer in a history of sequential, interrupted and threaded phases; callers change the lists which they got.',
    'first call of a fresh tokenizer built from the same inputs in a pristine process; laws on tokens and offsets; inputs unchanged.',
    'switches between threads at any line, interrupts at any line, failing output.',
    '2 to 4 threads, up to 4 phases; about 10 s.')
HOW['C08'] = (
    'as C07, for taggers, lemmatizer, module functions, vectorizer codes, word and noun scores, queries of counters and graphs, resources.',
    'as C07.', 'as C07.', 'as C07; about 19 s.')
HOW['C09'] = (
    'two to four objects are built from the same inputs of one caller and used in any order, or by one thread each; a training of one may fail.',
    'what each gives when it is alone in a pristine process; every input compared with a deep copy; what is done to the inputs later has no effect.',
    'thread switches at any line, failing corpora, changes of the inputs by the caller.',
    'four objects, up to 8 operations each; about 20 s.')
HOW['C10'] = (
    'one plan is executed by three processes with other hash seeds, forms of the corpus, verbosity, memory readings, random states and pasts.',
    'the processes against one another (7 digits); corpora and random states as before.',
    'the environment is the fault: hash seed, psutil readings from 0 to 2^50, global random states, log files, other objects before.',
    'three variants per plan; about 18 s.')
HOW['C11'] = (
    'a history of counting, removing, adding, resetting, converting, copying, saving, loading, and noun extraction on counters and graphs.',
    'a model of multisets, which parses and counts on its own.',
    'failing corpora and preprocessing functions, failing saves and loads.',
    'up to 12 operations on two counters and two graphs; about 13 s.')
HOW['C12'] = (
    'a history of trainings (adding up or replacing, pruning), failures, saves and loads, with single and whole table queries after each.',
    'its own counts of every sub word and side, its own entropy, cohesion, variety; with pruning an interval between pruning never and at every point.',
    'failing corpora in each pass, failing output, interrupts at any line, failing and short I/O.',
    'up to 8 operations on two objects; about 16 s.')
HOW['C13'] = (
    'two vectorizers fit, transform, write matrix files, save, load, fail; documents change between passes; threads share a vectorizer.',
    'its own vocabulary rule and counts, its own reader of Matrix Market files.',
    'failing corpora, tokenizers, output, I/O, interrupts; corpora which can be read only once; thread switches at any line.',
    'up to 10 operations; about 20 s.')
HOW['C14'] = (
    'decompositions with integer, generator and no random state between draws and seedings of others, interrupts and threads.',
    'scikit-learn in a pristine process with a generator of the same state; mirrors of every generator, which must be in the same state afterwards; '
    'laws of truncated decompositions.',
    'state of the global generators, interrupts, thread switches.',
    'four matrices up to 70x60; about 13 s.')
HOW['C15'] = (
    'a history of adding, removing, saving, loading on a tag dictionary, while taggers which use it tag sentences.',
    'a dictionary model; all candidates enumerated anew from it; laws on the tagged sentence.',
    'failing and short I/O, interrupts at any line of an operation, thread switches among tagging threads.',
    'up to 12 operations; about 10 s.')
HOW['C16'] = (
    'trainings from sentences, counters, graphs; extractions with any thresholds, candidates and predictors; domain features; failures.',
    'an executable model of both extractors, from sentences to nouns, including compounds, postprocessing, log files and the remaining graph.',
    'failing corpora in each pass, interrupts at any line, failing output, failing log files.',
    'corpora of up to a few dozen sentences over small alphabets, so that words overlap; about 22 s.')
HOW['C17'] = (
    'trainings and extractions of the predicator, eomi and stem extractors with any settings and candidates; failures.',
    'an executable model of all three on its own counts, with a model of its own (checks/korean.py) of syllables, conjugation, lemma candidates and normalisation.',
    'failing corpora, interrupts at any line, failing output, failing log files.',
    'corpora of up to 250 eojeols made from a table of stems, endings and their surfaces; about 19 s.')
HOW['C18'] = (
    'trainings and extractions of the news and chat POS extractors; failures.',
    'an executable model of the whole pipeline which is composed of those of C16 and C17.',
    'failing corpora, interrupts at any line, failing output, failing resource files.',
    'corpora of up to 200 eojeols; about 32 s.')
HOW['C19'] = (
    'a pool of matrices, vectors and an L-R graph is shared by a history of computations, some interrupted, some in threads; callers spoil the answers.',
    'the same scores by plain arithmetic on lists of numbers; inputs compared after each call.',
    'interrupts at any line, failing output, failing tokenizers, thread switches.',
    'matrices up to 9x9 and those of small corpora; about 24 s.')
HOW['C20'] = (
    'tokenizers of six kinds are made from tables, word lists, preferences, L-R graphs and what extractors learned; they are made anew, asked, '
    'interrupted, shared by threads, while extractors are trained again.',
    'its own choice of tokens: best prefix, greedy best sub words, greedy best L-R pairs, cuts by character class, longest nouns.',
    'interrupts at any line, failing output, thread switches at any line.',
    'eojeols of up to 60 characters, tables of up to 25 scores (mostly binary fractions) with many ties; about 25 s.')
