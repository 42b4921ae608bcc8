# read by meta.py

prop('C01', 'Saving is all or nothing',
     'Whatever goes wrong while an object is saved (crash of the process, loss of power, failing or interrupted system call, '
     'content which cannot be encoded, failing input), the target file afterwards holds either its complete previous content or the '
     'complete new content, every other file is untouched, nothing is left behind by a save which returned or raised, links and '
     'permissions are kept, and a later save works. Threads or processes which save to the same path at the same time leave one '
     'complete version, and readers at any time see a complete version. This holds for eojeol counters, L-R graphs, word extractors, '
     'vectorizer vocabularies and matrix files, tag dictionaries, eojeol pattern models and for sorting a file in place.',
     ['crash_points', 'fault_sequences', 'schedules', 'histories'],
     'for every content, every crash point, every failing operation and every interleaving of concurrent savers and readers',
     'The tests save and load once on a healthy disk; they never fail a system call, crash between two of them, or save concurrently.',
     ['soynlp/utils/utils.py', 'soynlp/word/_word.py', 'soynlp/vectorizer/_vectorizer.py', 'soynlp/postagger/_dictionary.py',
      'soynlp/tokenizer/_tokenizer_builder.py'],
     [('write aside, sync, rename', 'soynlp/utils/utils.py: atomic_write'),
      ('save methods', 'EojeolCounter.save, LRGraph.save, WordExtractor.save, BaseVectorizer.save/to_file, Dictionary.save, '
       'EojeolPatternTrainer.save, sort_by_alphabet')],
     None, 'Seeded search over contents, fault positions and schedules with the real code on a real directory behind a libc seam. '
     'Power loss is a model of the page cache: unsynced bytes may be lost or zero, name space operations are ordered.')

prop('C02', 'What was saved is what is loaded',
     'Through every history of training, changing, saving, loading and saving again (also to the same path, also in another process), '
     'an object which loads a file observably equals the object which saved it, and continuing its history gives the same results as '
     'continuing that of the original; saving an unchanged loaded object writes the same content again. This holds for eojeol '
     'counters, L-R graphs, word extractors, vectorizer vocabularies, tag dictionaries and eojeol pattern models, with short reads and '
     'writes at any position.',
     ['histories', 'inputs', 'fault_sequences'],
     'for every content without whitespace inside of tokens, and every sequence of operations',
     'One fixed save and load is tested for one class; equality over histories and unusual contents is not.',
     ['soynlp/utils/utils.py', 'soynlp/word/_word.py', 'soynlp/vectorizer/_vectorizer.py', 'soynlp/postagger/_dictionary.py',
      'soynlp/tokenizer/_tokenizer_builder.py'],
     [('save and load pairs', 'save/load of the classes above')],
     None, 'Seeded search over histories against the live object as the model; L-R graphs are compared as they were built, which is '
     'what is saved.')

prop('C03', 'A load which fails says so and changes nothing',
     'When a file is missing, cut short, malformed or wrongly encoded, or reading it fails or loading is interrupted, then loading raises and '
     'the object is exactly as before the attempt; the same load succeeds once the cause is gone. Constructing a noun extractor, '
     'predicator extractor, tag dictionary or the default adverbs from resource files either yields the complete resource or raises, '
     'never a part of it, and leaves no trace in later constructions.',
     ['fault_sequences', 'inputs', 'histories'],
     'for every class that loads, every position of a read failure and every malformed variant of a file',
     'The tests only load intact files.',
     ['soynlp/utils/utils.py', 'soynlp/word/_word.py', 'soynlp/vectorizer/_vectorizer.py', 'soynlp/postagger/_dictionary.py',
      'soynlp/tokenizer/_tokenizer_builder.py', 'soynlp/noun', 'soynlp/predicator/_predicator.py', 'soynlp/pos/_adverb.py'],
     [('parse everything, then replace', 'load methods'), ('resource readers', '_load_predictor, _load_dictionary, load_default_adverbs')],
     None, 'Seeded search over read faults, interrupts at arbitrary lines and edits of valid files. A text file which is cut exactly '
     'at the end of a line is a valid shorter file and out of reach.')

prop('C04', 'Every pass over a file corpus yields the same items',
     'Every iteration over a two-space line corpus, however it interleaves with other iterations, abandoned ones, length queries and '
     'threads, yields exactly the documents or sentences of the file within the given limits, and its length is the number of items '
     'which an iteration yields. A read error during an iteration is raised and never looks like the end of the corpus, and no file '
     'stays open after iterations are over.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'for every file, limit, header, mode, interleaving of passes and read failure',
     'The tests iterate one file once in order.',
     ['soynlp/utils/utils.py'], [('corpus', 'DoublespaceLineCorpus.__iter__, __len__, _check_length')],
     None, 'Seeded search against an independent model of the format.')

prop('C05', 'A training which fails keeps the previous model',
     'When training fails or is interrupted (the corpus raises or delivers a bad item in any pass, the tokenizer raises, a corpus or '
     'resource file cannot be read, output or memory readings fail, an interrupt arrives anywhere), the error reaches the caller and '
     'the object answers as its previous model does, or, for an interrupt which arrives late, as the complete new one does. Training '
     'again afterwards gives what it would have given without the failure. This holds for word extractors, bigram extractors, both '
     'L-R graph noun extractors, the news noun extractor, predicator extractors, eojeol pattern trainers, vectorizers and the news '
     'and chat POS extractors.',
     ['fault_sequences', 'histories', 'inputs'],
     'for every corpus, parameter, history of trainings, kind of failure and position of it',
     'The tests train once on a corpus which never fails.',
     ['soynlp/word', 'soynlp/noun', 'soynlp/predicator', 'soynlp/pos', 'soynlp/vectorizer', 'soynlp/tokenizer/_tokenizer_builder.py',
      'soynlp/utils/utils.py'],
     [('build the new model aside, then take it over', 'train methods; soynlp/utils/utils.py: all_or_nothing')],
     None, 'Seeded search; the oracle is the same code without the fault in a process which did nothing before.')

prop('C06', 'An extraction leaves no trace in later extractions',
     'What an extraction returns depends only on the trained model and on the parameters of that extraction: extractions before it, '
     'with any parameters or candidate words, complete, failed (output, log file, memory reading) or interrupted anywhere, have no '
     'influence, and the L-R graph is afterwards as it was trained. This holds for word extractors, bigram extractors, both L-R '
     'graph noun extractors, the news noun extractor, predicator extractors and the news and chat POS extractors.',
     ['histories', 'fault_sequences', 'inputs'],
     'for every trained model and every history of complete, failed and interrupted extractions and further trainings',
     'The tests extract once from a fresh model.',
     ['soynlp/word', 'soynlp/noun', 'soynlp/predicator', 'soynlp/pos', 'soynlp/utils/utils.py'],
     [('graph is copied or restored', 'soynlp/noun/_noun_ver2.py: extract'), ('candidates', 'soynlp/noun/_noun_news.py: extract')],
     None, 'Seeded search; the oracle is the first extraction of the same model in a process which did nothing before.')

prop('C07', 'Tokenizers answer every call as if it were the only one, and lose nothing',
     'Whatever was asked before, in whatever order, interrupted, with a failing output or by other threads at the same time, a call of '
     'a tokenizer answers as the first call of a fresh tokenizer built from the same inputs, and what a caller does with an answer has '
     'no influence on later ones. The tokens of a sentence, in order, are the characters of the sentence without blanks (of the regex '
     'tokenizer and of the noun tokenizers as far as they promise it), and offsets point at the tokens they belong to. This holds for '
     'the L, maximum score, maximum L-R score, regex and both noun tokenizers, which never change the scores or nouns they were given.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'for every set of scores or nouns, every sentence, every history of calls and every interleaving of threads',
     'Tests ask a fresh tokenizer for one sentence in one thread.',
     ['soynlp/tokenizer/_tokenizer.py', 'soynlp/tokenizer/_noun_tokenizer.py'],
     [('tokenize methods', 'LTokenizer, MaxScoreTokenizer, MaxLRScoreTokenizer, RegexTokenizer, NounLMatchTokenizer, NounMatchTokenizer')],
     None, 'Seeded search over histories and thread schedules at line granularity; the oracle is the same call in a process which '
     'did nothing before, and the text of the sentence.')

prop('C08', 'Asking a shared object never changes what it answers',
     'Whatever was asked before, interrupted, with a failing output or by other threads at the same time, each question is answered as '
     'the first question to a fresh object, and what a caller does with an answer has no influence on later ones; a tagger covers every '
     'eojeol of its sentence. This holds for the simple tagger with each of its matchers and evaluators, the lemmatizer, the module '
     'functions for normalising, Hangul handling and lemmas, the encodings of a fitted vectorizer, scores and predictions of trained '
     'word extractors, bigram extractors and noun extractors, queries of eojeol counters and L-R graphs, and the matrix functions, none '
     'of which changes what the caller gave to them.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'for every model and dictionary, every history of questions and every interleaving of threads',
     'Tests ask one question to a fresh object in one thread.',
     ['soynlp/postagger', 'soynlp/lemmatizer', 'soynlp/normalizer', 'soynlp/hangle', 'soynlp/vectorizer', 'soynlp/word',
      'soynlp/noun', 'soynlp/utils'],
     [('queries have no side effects', 'tag, lemmatize, candidates, normalize functions, encode/decode, word_scores, predict, '
       'get_r, get_l, freq')],
     None, 'Seeded search over histories and thread schedules at line granularity; the oracle is the same question in a process which '
     'did nothing before.')

prop('C09', 'Objects side by side do not influence one another or their caller',
     'Objects which are built and trained from the same inputs of one caller, used in any order or by concurrent threads (each object by '
     'one), give exactly what each gives when it is alone, also after a training of another one failed. None of them ever changes the '
     'corpora, counters, word sets, tag dictionaries, L-R pairs or scores of the caller, and what the caller does with these after they '
     'were read has no effect. This holds for trained extractors and vectorizers, pattern trainers, eojeol counters, L-R graphs, tag '
     'dictionaries and tokenizers.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'for every set of objects, order of their operations, changes by the caller in between and interleaving of threads',
     'Tests use one object at a time, in processes of one test each.',
     ['soynlp/word', 'soynlp/noun', 'soynlp/predicator', 'soynlp/pos', 'soynlp/vectorizer', 'soynlp/postagger', 'soynlp/tokenizer',
      'soynlp/utils/utils.py'],
     [('no state outside of the object; inputs are copied or only read', 'constructors and train methods of the classes above')],
     None, 'Seeded search; the oracle is the program of each object alone, with inputs of its own, in a process which did nothing '
     'before. An L-R graph given for training belongs to the extractor from then on; scores of tokenizers and word lists of extractors '
     'are not changed while they are used.')

prop('C10', 'The same input gives the same result in every environment',
     'Training, extraction, tagging, tokenization and vectorization of the same inputs give the same result, in the same order where an '
     'order is returned, in every process: whatever the hash seed, the form of the corpus (list, iterable read again and again, file), '
     'verbosity, the memory readings shown in progress messages, the state of the global random generators, and whatever the process did '
     'before with other objects. The given corpora and the state of the global random generators are left as they were.',
     ['inputs', 'histories', 'configurations'],
     'for every input, hash seed, form of corpus, verbosity and earlier use of the process',
     'Each test runs once in one process with one hash seed.',
     ['soynlp/word', 'soynlp/noun', 'soynlp/predicator', 'soynlp/pos', 'soynlp/vectorizer', 'soynlp/tokenizer', 'soynlp/tagger',
      'soynlp/utils/utils.py'],
     [('public results of all classes', 'extract, train, tokenize, tag, transform methods')],
     None, 'Seeded search over plans, each executed by three processes of different environments and compared to 7 digits.')

prop('C11', 'Eojeol counters and L-R graphs count exactly',
     'An eojeol counter holds exactly the number of occurrences of each eojeol of its corpus (of those within the length limit, after '
     'preprocessing, and which reached the minimum count at every checkpoint); an L-R graph holds exactly the pairs of its eojeols within '
     'the length limits with their summed counts. Through every history of removing, adding, resetting, converting into one another, '
     'copying, saving, loading and extracting nouns, also when some of these fail, the contents equal those of a plain multiset: both '
     'directions of the graph always agree, no count is ever zero or negative, a reset returns to what was built, and coverage is the '
     'share of the counts which are gone.',
     ['histories', 'inputs', 'fault_sequences'],
     'for every corpus, limits and sequence of operations',
     'Tests compare a few counts of one corpus once and never edit, reset or convert.',
     ['soynlp/utils/utils.py', 'soynlp/noun/_noun_ver2.py'],
     [('counting', 'EojeolCounter._counting_from_sents, _set_total_frequency'), ('graph', 'LRGraph.*, EojeolCounter.to_lrgraph, to_EojeolCounter')],
     None, 'Seeded search over histories against a model of multisets. A graph built empty cannot be reset; unevenly consumed pairs leave '
     'the count of an eojeol open between those of its pairs.')

prop('C12', 'Word statistics are exactly those of the corpora which were trained',
     'After every history of trainings (added up or replacing, with pruning or without), failed and interrupted trainings, saving and '
     'loading, a word extractor reports for every word exactly the left and right side frequencies of the corpora it was trained with '
     'and the cohesion, branching entropy and accessor variety which follow from these counts, alike in single and in whole table '
     'queries, and extracts exactly the words which satisfy its thresholds; pruning only ever lowers counts of words, and never that '
     'of a word since the last pruning. Bigram and eojeol pattern counts are exact in the same way, and the scores of bigrams (frequency, '
     'pmi, mikolov), the bigrams above a threshold and the topk follow from the counts. Queries change nothing.',
     ['histories', 'inputs', 'fault_sequences', 'crash_points'],
     'for every sequence of corpora, settings, pruning points, failures, saves and loads',
     'Tests train once on one corpus and look at a few scores; chunks, pruning, failures and reloading are not tried.',
     ['soynlp/word/_word.py', 'soynlp/word/_phrase.py', 'soynlp/tokenizer/_tokenizer_builder.py'],
     [('counting and pruning', 'WordExtractor._train'), ('scores', 'WordExtractor.word_scores, cohesion_score, branching_entropy, accessor_variety, extract'),
      ('bigrams', 'Bigram._train, extract, to_tuple'), ('patterns', 'EojeolPatternTrainer._scan_vocabulary, _build_graph')],
     None, 'Seeded search over histories against a model which counts and scores on its own. Entropies in the table of all words are '
     'compared for words shorter than the maximal length.')

prop('C13', 'Term matrices, codes and matrix files are exact and consistent',
     'After every history of fitting, failed fitting, saving and loading, the vocabulary of a vectorizer is exactly the terms whose term '
     'and document frequencies are within the limits, in the order of their frequency; codes and bags of words decode to the terms of '
     'the document; a transformed matrix has one row per document and one column per term and holds exactly the counts; and every '
     'matrix file which was written without an error is well formed and holds the same matrix, also when several threads share the '
     'vectorizer. Documents which cannot be read twice are either written completely or refused. A (word, context) matrix holds exactly '
     'the weighted co-occurrences within the window of the words which are frequent enough.',
     ['histories', 'inputs', 'fault_sequences', 'schedules'],
     'for every corpus, tokenizer, frequency limits, sequence of operations, failure and interleaving',
     'Tests build one matrix once and do not read a file back.',
     ['soynlp/vectorizer/_vectorizer.py', 'soynlp/vectorizer/_word_context.py'],
     [('vocabulary', 'BaseVectorizer._fit'), ('matrix', 'BaseVectorizer.transform, to_file'), ('codes', 'encode_*, decode_*'),
      ('co-occurrence', 'sent_to_word_contexts_matrix')],
     None, 'Seeded search over histories, faults and interleavings against a model which counts on its own and reads the files itself.')

prop('C14', 'Chance is in the hands of the caller',
     'A decomposition (soynlp.utils.svd, the only random computation) depends on nothing but its input and its random state: with an '
     'integer it is the same always and everywhere, with a generator of the caller it draws from that alone and leaves it where an '
     'independent computation would, without a random state it follows the global generator of numpy; whatever was drawn, seeded, '
     'interrupted or computed before or in other threads. No other generator moves and no input changes. The result is a truncated '
     'decomposition of the input with the asked number of iterations, and impossible numbers of components are refused without drawing.',
     ['histories', 'schedules', 'inputs', 'fault_sequences'],
     'for every sequence of decompositions, draws and seedings, and every interleaving',
     'No test uses svd.',
     ['soynlp/utils/math.py'], [('random state', 'svd: check_random_state, randomized_svd')],
     None, 'Seeded search; random generators are simulated state with a mirror, scikit-learn itself is the oracle of the values.')

prop('C15', 'Tag dictionaries hold what was put in, and taggers follow them',
     'Through every history of adding (with or without force), removing words or tags, saving, loading, failing and interrupted '
     'operations, a tag dictionary holds exactly the words of each tag which were put into it and answers get_pos and word_is_tag '
     'accordingly, and refused operations change nothing. Taggers which use the dictionary answer exactly as ones made anew from the same '
     'words: their candidates are all and only the matches of the dictionary, scored by the features, weights and preferences of the '
     'evaluator, the result is made of the best of those which do not overlap (or is the best candidate of an eojeol), and it has every character of the sentence in order, each word with a tag it has in the dictionary or none; flat and structured '
     'results agree, also when several threads share a tagger.',
     ['histories', 'inputs', 'fault_sequences', 'schedules'],
     'for every dictionary content, sentence, sequence of operations, fault and interleaving',
     'One test tags a few sentences with one fixed dictionary.',
     ['soynlp/postagger/_dictionary.py', 'soynlp/postagger/_template.py', 'soynlp/postagger/_evaluator.py', 'soynlp/postagger/_tagger.py'],
     [('content', 'Dictionary.add_words, remove_words, load, save'), ('candidates', 'LRTemplateMatcher.generate, EojeolTemplateMatcher.generate'),
      ('choice', 'LREvaluator.select_best, SimpleEojeolEvaluator.evaluate'), ('result', 'SimpleTagger.tag, UnknowLRPostprocessor.postprocess')],
     None, 'Seeded search over histories against a model of sets and brute force matching.')

prop('C16', 'Extracted nouns, their frequencies and scores are those of the corpus',
     'After every history of trainings (sentences in any form, eojeol counters, L-R graphs), extractions with any thresholds, candidates and '
     'predictors, extractions of domain features, and failures of all of these, LRNounExtractor and LRNounExtractor_v2 extract exactly the '
     'nouns which their rules give for the counts of the last corpus, each with the number of eojeols it accounts for (longer nouns first, '
     'no eojeol twice) as its frequency and the score of its right sides as its score, both reaching the thresholds; compounds consist of '
     'nouns and decompose into them; predictions, the remaining L-R graph, numbers of covered eojeols and the log files agree with that. '
     'NewsNounExtractor extracts exactly its base nouns, the nouns before verbs, those which scores, features and rules on ends of words '
     'leave, and the compounds of these, each with the exact statistics of the corpus. What fails or is interrupted changes none of this for later calls.',
     ['histories', 'inputs', 'fault_sequences', 'crash_points'],
     'for every corpus, predictor, settings, sequence of trainings and extractions, and failure',
     'Tests extract once from one corpus and compare nothing but that it works.',
     ['soynlp/noun/_noun_ver1.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/noun/_noun_news.py', 'soynlp/noun/_noun_postprocessing.py', 'soynlp/noun/_josa.py'],
     [('v1', 'LRNounExtractor._scan_vocabulary, _build_lrgraph, _predict, _postprocess, _to_NounScore'),
      ('v2', 'LRNounExtractor_v2.predict, _batch_predicting_nouns, extract_compounds, _post_processing, _check_covered_eojeols'),
      ('domain features', 'noun._josa.extract_domain_pos_features'), ('news', 'NewsNounExtractor.predict, extract')],
     None, 'Seeded search over histories and faults against a model which counts and follows the rules on its own; only soundness, not '
     'completeness, for NewsNounExtractor. Words with too few right sides have score 0 in LRNounExtractor.')

prop('C17', 'Extracted eomis, stems, adjectives and verbs are those of the corpus',
     'After every history of trainings (sentences in any form, eojeol counters, L-R graphs), extractions with any thresholds and '
     'candidates, and failures or interrupts of these, the predicator extractor reports exactly the words of the corpus (or the candidates) '
     'which are conjugations of a known or extracted stem with a known or extracted eomi and no noun with a josa, each with its frequency '
     'in the corpus and all of its lemmas, as adjectives and verbs according to the dictionaries, the rules and the corpus; lemmas with '
     'eomis which mostly stand in nouns are left out, and nothing else is. The eomi and stem extractors find exactly the '
     'eomis and stems which their rules give for the counts of the corpus, with the scores and frequencies of these; predictions, log '
     'files, numbers of eojeols and the L-R graph agree. The caller\'s dictionaries never change.',
     ['histories', 'inputs', 'fault_sequences', 'crash_points'],
     'for every corpus, dictionary, settings, sequence of trainings and extractions, and failure',
     'The tests extract predicates once from one corpus and compare nothing.',
     ['soynlp/predicator/_predicator.py', 'soynlp/predicator/_eomi.py', 'soynlp/predicator/_stem.py', 'soynlp/predicator/_adjective_vs_verb.py'],
     [('words', 'PredicatorExtractor._as_lemma_candidates, _remove_wrong_eomis, _separate_adjective_verb'),
      ('training', 'PredicatorExtractor._train, _extract_eomi, _extract_stem'), ('eomis', 'EomiExtractor.predict, _batch_prediction, _eomi_lemmatize'),
      ('stems', 'StemExtractor.predict, _post_processing, _to_stem')],
     None, 'Seeded search over histories and faults against a model which counts and follows the rules on its own, '
     'those of conjugation, lemma candidates and normalisation included.')

prop('C18', 'POS extraction accounts for every eojeol of the corpus',
     'After every history of trainings, extractions and failures or interrupts of these, the news and chat POS extractors account for each '
     'eojeol of the last corpus: as a known noun, adjective, verb or adverb, as noun and josa or predicate, as compound predicates, as further '
     'conjugation of a known stem, as one syllable and its ending, as compound nouns, as an irregular fragment, or else as irrecognizable '
     'with its frequency. The frequency of each word is the number of eojeols it is found in, stems and eomis of found predicates are '
     'those which the dictionaries and the corpus support, words which are nouns and something else are reported apart as confused nouns, '
     'and an extraction is the same whenever it is repeated.',
     ['histories', 'inputs', 'fault_sequences', 'crash_points'],
     'for every Korean corpus, settings, sequence of trainings and extractions, and failure',
     'The tests never use the POS extractors.',
     ['soynlp/pos/_news_pos.py', 'soynlp/pos/_chat_pos.py', 'soynlp/pos/_adverb.py', 'soynlp/noun/_noun_ver2.py', 'soynlp/predicator/_predicator.py'],
     [('training', 'NewsPOSExtractor._train'), ('accounting', 'NewsPOSExtractor._count_matched_patterns, ChatPOSExtractor._count_matched_patterns'),
      ('compounds', '_parse_predicator_compounds, find_wrong_stem, find_wrong_eomi, find_noun_phrase')],
     None, 'Seeded search over histories and faults against a model of the whole extraction, from sentences to tags, which is composed of '
     'those of C16 and C17.')

prop('C19', 'Association, similarity and rank scores are exact',
     'Whatever was computed before, interrupted, with a failing output or tokenizer or by other threads on the same inputs at the same '
     'time, and whatever callers did with earlier answers: (word, context) matrices hold the weighted counts of pairs within the window, '
     'both forms of PMI hold log(p(x,y) / (p(x) (p(y) + alpha))) for exactly the pairs which reach the threshold and the probabilities of '
     'rows and columns, a search for similar items returns the asked number of the most similar other items with their cosine in order, '
     'and the ranks of the parts of an L-R graph are those of the mutual reinforcement of both sides. None of them changes its inputs.',
     ['histories', 'inputs', 'schedules', 'fault_sequences'],
     'for every matrix, graph, corpus, parameters, sequence of calls, failure and schedule',
     'The tests print PMI values of one corpus and judge none of them; the ranks, the second form of PMI and similar items are never used.',
     ['soynlp/word/_pmi.py', 'soynlp/utils/utils.py', 'soynlp/vectorizer/_word_context.py', 'soynlp/tokenizer/_tokenizer_builder.py'],
     [('PMI', 'pmi, pmi_memory_friendly'), ('similar items', 'most_similar'), ('co-occurrence', 'sent_to_word_contexts_matrix'),
      ('ranks', 'EojeolPatternTrainer.train_hits')],
     None, 'Seeded search over histories, faults and schedules against independent arithmetic on the same numbers.')

prop('C20', 'Tokens are the ones which the scores, nouns and rules give',
     'For every table of scores or nouns, given or learned, and every sentence, whatever was asked, trained, interrupted or done by other '
     'threads before or at the same time: the L tokenizer cuts each eojeol after the left part of the highest score (of the longest among '
     'those within the tolerance); the maximum score tokenizer takes the sub word of the highest score of what is left, longer ones and '
     'then left ones first, again and again, and reports each token with its place and its score in the table; the maximum L-R score '
     'tokenizer chooses the best L-R pairs which do not overlap after leaving out L parts inside of longer ones of similar score and R '
     'parts which cover the begin of a good L, with preferences added; the regex tokenizer cuts where numbers, Hangul syllables, '
     'consonants, vowels and latin words begin and end; the noun tokenizers return the longest nouns from the left, or the nouns of the '
     'highest scores, joined when compounds are asked for. Flat and structured results agree.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'for every table, sentence, options, sequence of calls and trainings, interrupt and interleaving',
     'The tests print the tokens of a few sentences; the maximum L-R score tokenizer and both noun tokenizers are never used.',
     ['soynlp/tokenizer/_tokenizer.py', 'soynlp/tokenizer/_noun_tokenizer.py'],
     [('left parts', 'LTokenizer.tokenize'), ('sub words', 'MaxScoreTokenizer.tokenize'), ('L-R pairs', 'MaxLRScoreTokenizer.tokenize'),
      ('cuts', 'RegexTokenizer.tokenize'), ('nouns', 'NounLMatchTokenizer.tokenize, NounMatchTokenizer.tokenize')],
     None, 'Seeded search over histories, faults and schedules against an executable model of each tokenizer.')

prop('N01', 'Hangul syllables compose and decompose inversely',
     'Decomposing a character and composing its parts gives the character again, for each syllable and each letter; transformations to and '
     'from letter sequences are inverse to one another, and edit distances on them are metrics.',
     ['inputs'], 'for every character and every pair of strings',
     'The tests compose a few syllables.',
     ['soynlp/hangle/_hangle.py', 'soynlp/hangle/_distance.py'],
     [('compose, decompose', 'soynlp/hangle/_hangle.py'), ('distances', 'soynlp/hangle/_distance.py')], None, '')

prop('N02', 'Normalising twice changes nothing',
     'The normalisers of repeated characters, emoticons, and of Hangul, numbers and text only are idempotent, keep what they promise to keep, '
     'and limit repeats as asked.',
     ['inputs'], 'for every string and every limit', 'The tests do not use the normalisers on arbitrary strings.',
     ['soynlp/normalizer/_normalizer.py'], [('normalisers', 'soynlp/normalizer/_normalizer.py')], None, '')

prop('N03', 'Conjugation and lemma candidates are inverse',
     'Each surface form which conjugating a stem and an ending gives has that stem and ending among its lemma candidates, and the rules for '
     'irregular predicates are those of Korean grammar.',
     ['inputs'], 'for every stem and ending of the dictionaries', 'The tests cover a list of words.',
     ['soynlp/lemmatizer/_conjugation.py', 'soynlp/lemmatizer/_lemmatizer.py'],
     [('conjugate', 'soynlp/lemmatizer/_conjugation.py'), ('lemma_candidate', 'soynlp/lemmatizer/_lemmatizer.py')], None, '')

_PURE = ('pure functions of one argument string each: no state, history, I/O, time, randomness or concurrency on which the property could '
         'depend, so there is nothing for a simulator to schedule or to fail; {}')
NOT_APPLICABLE = [
    ('N01', _PURE.format('that calls do not influence one another is decided by C08')),
    ('N02', _PURE.format('that calls do not influence one another is decided by C08')),
    ('N03', _PURE.format('that calls do not influence one another is decided by C08, and that extractors use the candidates rightly by C17 and C18')),
]
TECHNIQUES = {p['id']: TECH for p, _, _ in P} if 'TECH' in globals() else {}
NOTES = ''
