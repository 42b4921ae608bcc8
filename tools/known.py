#!/usr/bin/env python3
"""Writes known_findings.json: genuine defects which were repaired (they suppress nothing) and those which were not."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTY = {            # subject of the fix commit -> (property, what failed)
    'v2 noun extractor swaps frequency and score of compounds': ('C16', 'compounds were reported with their score as frequency and filtered by it'),
    'v2 noun extractor confuses frequency with score of predictions': ('C16', 'domain features were never found; the log had its columns swapped'),
    'interrupted extraction of domain features must not leave a consumed L-R graph': ('C16', 'the graph stayed consumed after an interrupt'),
    'NounMatchTokenizer gives each compound its own score, and no empty words': ('C20', 'a compound had the score of an earlier one; an empty word came first'),
    'RegexTokenizer does not cut latin words after an s inside': ('C20', "'desk' was cut into 'des' and 'k'"),
    'MaxScoreTokenizer reports the given score of short eojeols and gaps, which NounMatchTokenizer relies on':
        ('C20', 'eojeols of two characters, and single ones between words, had the default score, and such nouns were not found'),
    'MaxLRScoreTokenizer compares R with the score of L also when L was scored before':
        ('C20', 'an R which covers the begin of a better L was kept: the score of R was compared in place of the one of L'),
    'NewsNounExtractor looks for nouns of any length before verbs': ('C16', 'only two syllables were ever taken as the noun before a verb'),
    'NewsNounExtractor compares min_feature_proportion with the proportion, not with the frequency': ('C16', 'the proportion of known features had no influence'),
    'scores of bigrams use frequencies of words, not numbers of bigrams': ('C12', 'scores compared frequencies with numbers of different bigrams'),
    'Bigram.extract returns the topk bigrams': ('C12', 'topk had no influence'),
    'the second form of PMI keeps the pairs which just reach the threshold': ('C19', 'pairs whose PMI is exactly min_pmi were left out, unlike by pmi'),
    'pmi_memory_friendly compares the wrong dimension of probabilities': ('C19', 'every call failed'),
    'train_hits is a method, and sums over all neighbors': ('C19', 'every call failed; equal products counted once'),
    'most_similar returns topk items when others are as near as the query': ('C19', 'one item too many was returned'),
    'missing comma in the exported names of soynlp.utils': ('C19', 'from soynlp.utils import * raised AttributeError'),
    'saving must not destroy the previous file when it is interrupted or fails':
        ('C01', 'a crash, full disk or unencodable content during save left a truncated file in place of the previous one'),
    'concurrent saves may create the same directory': ('C01', 'two savers into one missing directory: FileExistsError'),
    'a failed load must leave the object as it was': ('C03', 'a truncated or malformed file replaced half of the object'),
    'an empty L-R graph can be saved, loaded and copied': ('C02', 'save/load/copy of an empty L-R graph raised'),
    'DoublespaceLineCorpus must not hide read errors nor lose its limits':
        ('C04', 'a read error looked like the end of the corpus; len() or a second pass used other limits'),
    'LRNounExtractor must not go on with a partially read predictor': ('C03', 'a read error of a predictor file was printed and ignored'),
    'NewsNounExtractor must not go on with partially read or missing resources': ('C03', 'read errors of resources were swallowed'),
    'failed training must not replace nor corrupt the trained counts': ('C05', 'WordExtractor/Bigram held counts of a part of the corpus'),
    'failed training of LRNounExtractor must keep the trained model': ('C05', 'LRNounExtractor lost its model'),
    'interrupted training of LRNounExtractor keeps a consistent model': ('C05', 'lcount of one corpus with the words of another'),
    'failed training of extractors, vectorizer and pattern trainer keeps previous model':
        ('C05', 'a corpus which failed in a later pass left a mixture of two models'),
    'interrupted noun extraction must not leave a consumed L-R graph': ('C06', 'v1: graph stayed consumed after an interrupt'),
    'interrupted extraction of LRNounExtractor_v2 must not leave a consumed L-R graph': ('C06', 'v2: the same'),
    'LRNounExtractor_v2 accepts postprocessing methods': ('C06', 'a string or list as postprocessing raised in every extraction'),
    'to_lrgraph ignores one syllable eojeols when it is asked to': ('C11', 'ignore_one_syllable had no effect'),
    'LRGraph must not share its graph with the caller': ('C09', 'removing eojeols changed the dict of the caller'),
    'LRGraph built from sents counts each eojeol once': ('C11', 'pairs were counted repeatedly'),
    'LRGraph accepts unseen (l, r) pairs and eojeols': ('C11', 'KeyError for unseen pairs'),
    'Dictionary must not share sets with its caller, and takes any words':
        ('C09', 'adding words changed the set of the caller and of other dictionaries'),
    'PredicatorExtractor must not change the inputs of its caller': ('C09', 'stems and endings were added to the sets of the caller'),
    'NewsNounExtractor.extract must not depend on the previous extraction': ('C06', 'candidates stayed in the noun dictionary'),
    'extract of POS extractors must not depend on the previous extraction': ('C06', 'second extract() differed from the first'),
    'PredicatorExtractor.extract does not depend on earlier extractions': ('C06', 'candidates consumed the graph for later extractions'),
    'POS and stem extraction do not swallow KeyboardInterrupt': ('C06', 'a bare except swallowed Ctrl-C and lost a stem'),
    'MaxLRScoreTokenizer must neither lose nor repeat characters': ('C07', 'tokens lost or repeated characters of the sentence'),
    'UnknowLRPostprocessor must not drop eojeols without candidates': ('C08', 'tag() lost eojeols'),
    'tags of LRTemplateMatcher must not be in hash order': ('C10', 'tags depended on the hash seed'),
    'Lemmatizer.candidates is callable': ('C08', 'candidates was a property with an argument'),
    'SimpleTagger debug mode with EojeolTemplateMatcher': ('C08', 'debug=True raised'),
    'LREvaluator returns words in the order of the sentence': ('C08', 'words came in the order of their scores'),
    'BaseVectorizer counts every occurrence as term frequency': ('C13', 'min_tf/max_tf judged document frequency'),
    '(word, context) matrix is square and its order does not depend on hash seed':
        ('C13', 'the matrix missed columns and its order was the hash order'),
    'EojeolPatternTrainer must not share its word set with the caller': ('C09', 'changes of the caller changed the trained word set'),
    'verbose EojeolPatternTrainer accepts short corpora': ('C05', 'ZeroDivisionError for corpora of less than 10 sentences'),
    'progress messages of an empty model do not fail': ('C05', 'ZeroDivisionError in a progress message'),
    'to_file must not write a matrix which does not fit its header':
        ('C13', 'documents which can be read only once: header announced elements, none were written, nothing was raised'),
    'interrupted load must not leave a half loaded object': ('C03', 'an interrupt between two assignments of load left parts of two objects'),
    'extracted stems must be those which occur with known eomis':
        ('C17', 'stems were extracted from unknown endings only, with score and frequency swapped; regular stems were never found'),
    'predicator extractor with verbose=False prints progress of stem extraction': ('C17', 'verbose=False printed (and failed with the output)'),
    'PredicatorExtractor.is_trained raises AttributeError': ('C17', 'is_trained raised'),
    'predicator training ignores min_eojeol_frequency for sentences': ('C17', 'sentences were always filtered by 2, counters and graphs by the argument'),
    'EomiExtractor cannot predict after an extraction': ('C17', 'predict() raised AttributeError after extract()'),
    'interrupted extraction of eomis must not leave a consumed L-R graph': ('C17', 'the next extraction missed eomis'),
    'removing a wrong eomi drops words which have other lemmas': ('C17', 'a word with two stems for one wrong eomi lost its other lemmas, too'),
    'ChatPOSExtractor loses the stems of compound predicators':
        ('C18', 'stems of compound predicates were missing among the stems of the result, and their other conjugations stayed irrecognizable'),
    'BaseVectorizer.load keeps white space of terms':
        ('C02', 'terms which are or begin or end with white space (tokenizer=list) were loaded as other terms'),
    'eojeols of a corpus are separated by any white space in every pass':
        ('C12', 'a tab or an ideographic space separated eojeols when pairs were counted but not when frequent parts were (C16 for LRNounExtractor)'),
}
FINDINGS = []


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True, check=True).stdout
    fixed = []
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if s.startswith('fix: '):
            p, what = PROPERTY[s[5:]]
            fixed.append('fixed: property={} {} {}'.format(p, h, what))
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
        json.dump({'findings': FINDINGS, 'fixed': fixed}, f, indent=1)
        f.write('\n')


main()
