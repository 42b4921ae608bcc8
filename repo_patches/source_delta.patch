From 493c52262dd800d69e028603e32ad9cb251aa92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 01/63] fix: saving must not destroy the previous file when it
 is interrupted or fails

---
 soynlp/postagger/_dictionary.py        |  3 +-
 soynlp/tokenizer/_tokenizer_builder.py |  3 +-
 soynlp/utils/__init__.py               |  1 +
 soynlp/utils/utils.py                  | 38 ++++++++++++++++++++++++--
 soynlp/vectorizer/_vectorizer.py       |  5 ++--
 soynlp/word/_word.py                   |  3 +-
 6 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 19e81e5..91d205b 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -6,6 +6,7 @@ if sys.version_info <= (2,7):
     sys.setdefaultencoding('utf-8')
 import json
 import os
+from soynlp.utils import atomic_write
 
 class Dictionary:
     def __init__(self, pos_dict):
@@ -95,7 +96,7 @@ class Dictionary:
                 }
                 json.dump(params, fp, ensure_ascii=False, indent=2)
         else:
-            with open(filename, 'w', encoding= "utf-8") as fp:
+            with atomic_write(filename, encoding='utf-8') as fp:
                 params = {
                     'max_length':self.max_length,
                     'pos_dict': {pos:list(words)
diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 016f0b6..d47f76e 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -2,6 +2,7 @@
 
 from collections import defaultdict
 import sys
+from soynlp.utils import atomic_write
 from soynlp.utils import get_process_memory
 
 
@@ -91,7 +92,7 @@ class EojeolPatternTrainer:
         return lrgraph, rlgraph
     
     def save(self, fname):
-        with open(fname, 'w', encoding='utf-8') as f:
+        with atomic_write(fname, encoding='utf-8') as f:
             f.write('%d %d %d %d\n' % (self.max_left_length, self.max_right_length, self.min_frequency, 1 if self.verbose else 0))
             f.write('# lrgraph\n')
             for l, rdict in self.lrgraph.items():
diff --git a/soynlp/utils/__init__.py b/soynlp/utils/__init__.py
index 6a98c89..707abfa 100644
--- a/soynlp/utils/__init__.py
+++ b/soynlp/utils/__init__.py
@@ -2,6 +2,7 @@ from .utils import get_available_memory
 from .utils import get_process_memory
 from .utils import sort_by_alphabet
 from .utils import check_dirs
+from .utils import atomic_write
 from .utils import most_similar
 from .utils import check_corpus
 from .utils import DoublespaceLineCorpus
diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index e02775f..893f29e 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -1,9 +1,11 @@
 # -*- encoding:utf8 -*-
 
+import itertools
 import os
 import psutil
 import sys
 from collections import defaultdict
+from contextlib import contextmanager
 from sklearn.metrics import pairwise_distances
 
 
@@ -28,6 +30,36 @@ def check_dirs(filepath):
         os.makedirs(dirname)
         print('created {}'.format(dirname))
 
+_temporary_ids = itertools.count()
+
+@contextmanager
+def atomic_write(filepath, mode='w', encoding=None):
+    """Open a temporary file next to `filepath` and move it onto `filepath`
+    only after everything has been written. Whatever goes wrong in between,
+    `filepath` has its previous content.
+    """
+    target = os.path.realpath(filepath)
+    if os.path.exists(target) and not os.path.isfile(target):
+        # device, pipe and so on. They cannot be replaced
+        with open(filepath, mode, encoding=encoding) as f:
+            yield f
+        return
+
+    temporary = os.path.join(os.path.dirname(target),
+        '.soynlp-{}-{}.tmp'.format(os.getpid(), next(_temporary_ids)))
+    try:
+        with open(temporary, mode, encoding=encoding) as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(target):
+            os.chmod(temporary, os.stat(target).st_mode & 0o7777)
+        os.replace(temporary, target)
+    except BaseException:
+        if os.path.exists(temporary):
+            os.remove(temporary)
+        raise
+
 def sort_by_alphabet(filepath):
     if sys.version.split('.')[0] == '2':
         with open(filepath) as f:
@@ -42,7 +74,7 @@ def sort_by_alphabet(filepath):
             for doc in sorted(docs):
                 f.write('{}\n'.format(doc))
     else:
-        with open(filepath, 'w', encoding= "utf-8") as f:
+        with atomic_write(filepath, encoding='utf-8') as f:
             for doc in sorted(docs):
                 f.write('{}\n'.format(doc))
 
@@ -302,7 +334,7 @@ class EojeolCounter:
         dirname = os.path.dirname(path)
         if dirname and not os.path.exists(dirname):
             os.makedirs(dirname)
-        with open(path, 'w', encoding='utf-8') as f:
+        with atomic_write(path, encoding='utf-8') as f:
             for eojeol, count in sorted(self._counter.items(), key=lambda x:(-x[1], x[0])):
                 f.write('{} {}\n'.format(eojeol, count))
 
@@ -458,7 +490,7 @@ class LRGraph:
         dirname = os.path.dirname(path)
         if dirname and not os.path.exists(dirname):
             os.makedirs(dirname)
-        with open(path, 'w', encoding='utf-8') as f:
+        with atomic_write(path, encoding='utf-8') as f:
             for l, rdict in sorted(self._lr_origin.items()):
                 for r, c in sorted(rdict.items()):
                     f.write('{} {} {}\n'.format(l, r, c))
diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 4e04d54..0f57b4f 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -1,6 +1,7 @@
 import os
 from collections import Counter
 from scipy.sparse import csr_matrix
+from soynlp.utils import atomic_write
 
 
 class BaseVectorizer:
@@ -112,7 +113,7 @@ class BaseVectorizer:
             os.makedirs(directory)
 
         # to file
-        with open(file_path, 'w', encoding=encoding) as f:
+        with atomic_write(file_path, encoding=encoding) as f:
             # header
             f.write('%%MatrixMarket matrix coordinate integer general\n')
             f.write('%\n')
@@ -151,7 +152,7 @@ class BaseVectorizer:
     def save(self, fname):
         if fname[-6:] != '.vocab':
             fname += '.vocab'
-        with open(fname, 'w', encoding='utf-8') as f:
+        with atomic_write(fname, encoding='utf-8') as f:
             for vocab in self.idx2vocab:
                 f.write('{}\n'.format(vocab))
     
diff --git a/soynlp/word/_word.py b/soynlp/word/_word.py
index e53682b..646ebcb 100644
--- a/soynlp/word/_word.py
+++ b/soynlp/word/_word.py
@@ -6,6 +6,7 @@ import math
 import numpy as np
 import pickle
 import sys
+from soynlp.utils import atomic_write
 from soynlp.utils import get_process_memory
 from soynlp.utils import check_corpus
 
@@ -271,7 +272,7 @@ class WordExtractor:
             'configuration': configuration,
             'data': data
             }
-        with open(fname, 'wb') as f:
+        with atomic_write(fname, 'wb') as f:
             pickle.dump(params, f)
 
     def load(self, fname):
-- 
2.43.0


From 3cfa39036bbbbe8941eb86d9183d6223076d2614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 02/63] fix: a failed load must leave the object as it was

---
 soynlp/postagger/_dictionary.py        |  7 ++++---
 soynlp/tokenizer/_tokenizer_builder.py | 22 +++++++++++-----------
 soynlp/utils/utils.py                  | 16 +++++++++-------
 soynlp/word/_word.py                   | 10 +++++++++-
 4 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 91d205b..ef2df77 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -82,9 +82,10 @@ class Dictionary:
         else:
             with open(filename, encoding= "utf-8") as fp:
                 params = json.load(fp)
-                self.max_length = params['max_length']
-                self.pos_dict = {tag:set(words)
-                    for tag, words in params['pos_dict'].items()}
+            pos_dict = {tag:set(words)
+                for tag, words in params['pos_dict'].items()}
+            self.max_length = params['max_length']
+            self.pos_dict = pos_dict
 
     def save(self, filename):
         if sys.version_info.major == 2:
diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index d47f76e..213621e 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -112,11 +112,7 @@ class EojeolPatternTrainer:
             try:
                 args = [int(a) for a in args]
                 if len(args) != 4:
-                    raise ValueError('first line should be parameter info, %s' % str(e))
-                self.max_left_length = args[0]
-                self.max_right_length = args[1]
-                self.min_frequency = args[2]
-                self.verbose == True if args[3] == 1 else False
+                    raise ValueError('number of parameters should be 4')
             except Exception as e:
                 raise ValueError('first line should be parameter info, %s' % str(e))
                 
@@ -140,7 +136,6 @@ class EojeolPatternTrainer:
                     key2, freq = row[4:].split(': ')
                     freq = int(freq)
                     lrgraph[key1][key2] = freq
-            self.wordset_l = set(lrgraph.keys())
                 
             for row in f:
                 row = row[:-1]
@@ -152,13 +147,18 @@ class EojeolPatternTrainer:
                     key2, freq = row[4:].split(': ')
                     freq = int(freq)
                     rlgraph[key1][key2] = freq
-            self.wordset_r = set(rlgraph.keys())
-            
             lrgraph = {l:{r:f for r,f in rdict.items()} for l,rdict in lrgraph.items()}
             rlgraph = {r:{l:f for l,f in ldict.items()} for r, ldict in rlgraph.items()}
-            self.lrgraph = lrgraph
-            self.rlgraph = rlgraph
-            
+
+        self.max_left_length = args[0]
+        self.max_right_length = args[1]
+        self.min_frequency = args[2]
+        self.verbose = args[3] == 1
+        self.wordset_l = set(lrgraph.keys())
+        self.wordset_r = set(rlgraph.keys())
+        self.lrgraph = lrgraph
+        self.rlgraph = rlgraph
+
     def train_hits(lrgraph=None, rlgraph=None, sum_of_rank=10000, decaying_factor=0.9, max_iter=10, tolerance=0.0001):
         def normalize(g, sum_of_rank, df):
             factor = df * sum_of_rank / sum(g.values())
diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 893f29e..0926ecb 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -339,12 +339,13 @@ class EojeolCounter:
                 f.write('{} {}\n'.format(eojeol, count))
 
     def load(self, path):
-        self._coverage = 0.0
-        self._counter = {}
+        counter = {}
         with open(path, encoding='utf-8') as f:
             for line in f:
                 word, count = line.split()
-                self._counter[word] = int(count)
+                counter[word] = int(count)
+        self._coverage = 0.0
+        self._counter = counter
         self._count_sum = sum(self._counter.values())
 
 class LRGraph:
@@ -496,7 +497,7 @@ class LRGraph:
                     f.write('{} {} {}\n'.format(l, r, c))
 
     def load(self, path):
-        self._lr_origin = {}
+        lr_origin = {}
         with open(path, encoding='utf-8') as f:
             l = ''
             rdict = {}
@@ -504,7 +505,7 @@ class LRGraph:
                 sep = line.split()
                 if not (sep[0] == l):
                     if rdict:
-                        self._lr_origin[l] = rdict
+                        lr_origin[l] = rdict
                         rdict = {}
                 l = sep[0]
                 if len(sep) == 2:
@@ -514,7 +515,8 @@ class LRGraph:
                 else:
                     raise ValueError('Wrong lr-graph format: {}'.format(line))
             if rdict:
-                self._lr_origin[l] = rdict
+                lr_origin[l] = rdict
         self._lr, self._rl = self._check_lrgraph(
             {l:{r:c for r,c in rdict.items()}
-             for l,rdict in self._lr_origin.items()})
+             for l,rdict in lr_origin.items()})
+        self._lr_origin = lr_origin
diff --git a/soynlp/word/_word.py b/soynlp/word/_word.py
index 646ebcb..79d9c26 100644
--- a/soynlp/word/_word.py
+++ b/soynlp/word/_word.py
@@ -279,7 +279,16 @@ class WordExtractor:
         with open(fname, 'rb') as f:
             params = pickle.load(f)
 
+        # read everything before replacing anything
         configuration = params['configuration']
+        names = ('max_left_length', 'max_right_length', 'min_frequency',
+            'verbose_points', 'min_cohesion_forward', 'min_cohesion_backward',
+            'max_droprate_leftside_frequency', 'min_left_branching_entropy',
+            'min_right_branching_entropy', 'min_left_accessor_variety',
+            'min_right_accessor_variety', 'remove_subwords')
+        configuration = {name:configuration[name] for name in names}
+        data = {name:dict(params['data'][name]) for name in ('L', 'R', 'aL', 'aR')}
+
         self.max_left_length = configuration['max_left_length']
         self.max_right_length = configuration['max_right_length']
         self.min_frequency = configuration['min_frequency']
@@ -295,7 +304,6 @@ class WordExtractor:
         self.min_right_accessor_variety = configuration['min_right_accessor_variety']
         self.remove_subwords = configuration['remove_subwords']
 
-        data = params['data']
         self.L = data['L']
         self.R = data['R']
         self._aL = data['aL']
-- 
2.43.0


From f1ae06948a52a1e9436ba1c6a7212d1e61224ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 03/63] fix: an empty L-R graph can be saved, loaded and copied

---
 soynlp/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 0926ecb..4f63d22 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -391,6 +391,8 @@ class LRGraph:
             except:
                 raise ValueError('lrgraph type should be dict of dict, not {}'.format(
                     type(lrgraph)))
+        if not lrgraph:
+            return {}, {}
         nested_dict_type = type(list(lrgraph.values())[0])
         if nested_dict_type == defaultdict:
             lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
-- 
2.43.0


From 4ccb8afc5bdf620298927875fe7a75c2492dee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 04/63] fix: DoublespaceLineCorpus must not hide read errors
 nor lose its limits

---
 soynlp/utils/utils.py | 117 ++++++++++++++++++------------------------
 1 file changed, 49 insertions(+), 68 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 4f63d22..9526602 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -141,85 +141,66 @@ class DoublespaceLineCorpus:
         if (num_doc > 0) or (num_sent > 0):
             self.num_doc, self.num_sent = self._check_length(num_doc, num_sent)
 
+    def _open(self):
+        if sys.version.split('.')[0] == '2':
+            return open(self.corpus_fname)
+        return open(self.corpus_fname, encoding='utf-8')
+
     def _check_length(self, num_doc, num_sent):
-        num_sent_ = 0
-
-        # python version check
-        try:
-            if sys.version.split('.')[0] == '2':
-                f = open(self.corpus_fname)
-            else:
-                f = open(self.corpus_fname, encoding= "utf-8")
-        except Exception as e:
-            print(e)
-            return 0, 0
-
-        try:
+        num_doc_, num_sent_ = 0, 0
+
+        with self._open() as f:
             # skip headers
             for _ in range(self.skip_header):
-                next(f)
-        except Exception as e:
-            print(e)
-            return 0, 0
-
-        # check length
-        for doc_idx, doc in enumerate(f):
-            if (num_doc > 0) and (doc_idx >= num_doc):
-                return doc_idx, num_sent_
-            sents = doc.split('  ')
-            sents = [sent for sent in sents if sent.strip()]
-            num_sent_ += len(sents)
-            if (num_sent > 0) and (num_sent_ > num_sent):
-                return doc_idx+1, min(num_sent, num_sent_)
-
-        return doc_idx+1, num_sent_
+                next(f, None)
+
+            # check length
+            for doc_idx, doc in enumerate(f):
+                if (num_doc > 0) and (doc_idx >= num_doc):
+                    return doc_idx, num_sent_
+                num_doc_ += 1
+                sents = doc.split('  ')
+                sents = [sent for sent in sents if sent.strip()]
+                num_sent_ += len(sents)
+                if (num_sent > 0) and (num_sent_ > num_sent):
+                    return num_doc_, min(num_sent, num_sent_)
+
+        return num_doc_, num_sent_
 
     def __iter__(self):
-        try:
-            if sys.version.split('.')[0] == '2':
-                f = open(self.corpus_fname)
-            else:
-                f = open(self.corpus_fname, encoding='utf-8')
-        except Exception as e:
-            print(e)
-
-        try:
+        with self._open() as f:
             # skip headers
             for _ in range(self.skip_header):
-                next(f)
-        except Exception as e:
-            print(e)
-
-        # iteration
-        num_sent, stop = 0, False
-        for doc_idx, doc in enumerate(f):
-            if stop:
-                break
-
-            # yield doc
-            if not self.iter_sent:
-                yield doc.strip()
-                if (self.num_doc > 0) and ((doc_idx + 1) >= self.num_doc):
-                    stop = True
-                continue
+                next(f, None)
 
-            # yield sents
-            for sent in doc.split('  '):
-                if (self.num_sent > 0) and (num_sent >= self.num_sent):
-                    stop = True
+            # iteration
+            num_sent, stop = 0, False
+            for doc_idx, doc in enumerate(f):
+                if stop or ((self.num_doc > 0) and (doc_idx >= self.num_doc)):
                     break
-                sent = sent.strip()
-                if sent:
-                    yield sent
-                    num_sent += 1
+
+                # yield doc
+                if not self.iter_sent:
+                    yield doc.strip()
+                    continue
+
+                # yield sents
+                for sent in doc.split('  '):
+                    if (self.num_sent > 0) and (num_sent >= self.num_sent):
+                        stop = True
+                        break
+                    sent = sent.strip()
+                    if sent:
+                        yield sent
+                        num_sent += 1
 
     def __len__(self):
-        try:
-            if self.num_doc == 0:
-                self.num_doc, self.num_sent = self._check_length(-1, -1)
-            return self.num_sent if self.iter_sent else self.num_doc
-        except:
-            return -1
+        if self.num_doc == 0:
+            num_doc, num_sent = self._check_length(-1, -1)
+            # num_doc is set at last. It means that the length was checked
+            self.num_sent = num_sent
+            self.num_doc = num_doc
+        return self.num_sent if self.iter_sent else self.num_doc
 
 class EojeolCounter:
     def __init__(self, sents=None, min_count=1, max_length=15,
-- 
2.43.0


From 30c8eabfc49ec04fac45d49930508d42bae25f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 05/63] fix: LRNounExtractor must not go on with a partially
 read predictor

---
 soynlp/noun/_noun_ver1.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index c21d4e7..425b74a 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -41,25 +41,26 @@ class LRNounExtractor:
             print('[Noun Extractor] All %d r features was loaded' % len(self.coefficient))
 
     def _load_predictor(self, fname):
-        try:
-            if sys.version_info.major == 2:
-                f = open(fname)
-            else:
-                f = open(fname, encoding='utf-8')
-            try:
-                for num_line, line in enumerate(f):
+        if sys.version_info.major == 2:
+            f = open(fname)
+        else:
+            f = open(fname, encoding='utf-8')
+        coefficient = dict(self.coefficient)
+        with f:
+            for num_line, line in enumerate(f):
+                if not line.strip():
+                    continue
+                try:
                     r, score = line.strip().split('\t')
                     score = float(score)
-                    if r in self.coefficient:
-                        self.coefficient[r] = max(self.coefficient[r], score)
-                    else:
-                        self.coefficient[r] = score
-            except Exception as e:
-                print('[Noun Extractor] predictor parsing error line {} = {}'.format(num_line+1, line))
-            finally:
-                f.close()
-        except Exception as e:
-            print(e)
+                except ValueError:
+                    raise ValueError('[Noun Extractor] predictor parsing error line {} = {}'.format(
+                        num_line+1, line))
+                if r in coefficient:
+                    coefficient[r] = max(coefficient[r], score)
+                else:
+                    coefficient[r] = score
+        self.coefficient = coefficient
 
     def train_extract(self, sents, min_noun_score=0.5, min_noun_frequency=5,
             noun_candidates=None):
-- 
2.43.0


From 3ef9fc707cae442a6e2db906a3a3828084898c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 06/63] fix: NewsNounExtractor must not go on with partially
 read or missing resources

---
 soynlp/noun/_noun_news.py | 57 +++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 33 deletions(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index f58e5df..f4edde1 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -29,46 +29,37 @@ class NewsNounExtractor:
         self.josa_dictionary = {r for r, s in self.r_scores.items() if s > 0.1}
         self.josa_dictionary.update({'는'})
 
-        print(directory)
-
         self._vdictionary = set()
-        self._vdictionary.update(self._load_dictionary('%s/pos/dictionary/sejong/Verb.txt' % directory))
-        self._vdictionary.update(self._load_dictionary('%s/pos/dictionary/sejong/Adjective.txt' % directory))
+        self._vdictionary.update(self._load_dictionary('%s/postagger/dictionary/sejong/Verb.txt' % directory))
+        self._vdictionary.update(self._load_dictionary('%s/postagger/dictionary/sejong/Adjective.txt' % directory))
 
     def _load_predictor(self, fname):
-        try:
-            try:
-                if sys.version_info.major == 2:
-                    f = open(fname)
-                else:
-                    f = open(fname, encoding='utf-8')
-                
-                for num_line, line in enumerate(f):
+        if sys.version_info.major == 2:
+            f = open(fname)
+        else:
+            f = open(fname, encoding='utf-8')
+        with f:
+            for num_line, line in enumerate(f):
+                if not line.strip():
+                    continue
+                try:
                     r, score = line.strip().split('\t')
                     score = float(score)
-                    if r in self.r_scores:
-                        self.r_scores[r] = max(self.r_scores[r], score)
-                    else:
-                        self.r_scores[r] = score
-            finally:
-                f.close()
-        except Exception as e:
-            print(e)
+                except ValueError:
+                    raise ValueError('predictor parsing error line {} = {}'.format(
+                        num_line+1, line))
+                if r in self.r_scores:
+                    self.r_scores[r] = max(self.r_scores[r], score)
+                else:
+                    self.r_scores[r] = score
 
     def _load_dictionary(self, fname):
-        try:
-            try:
-                if sys.version_info.major == 2:
-                    f = open(fname)
-                else:
-                    f = open(fname, encoding='utf-8')
-                words = {word.strip().split('\t')[0] for word in f}
-            finally:
-                f.close()                    
-            return words
-        except Exception as e:
-            print(e)
-            return set()
+        if sys.version_info.major == 2:
+            f = open(fname)
+        else:
+            f = open(fname, encoding='utf-8')
+        with f:
+            return {word.strip().split('\t')[0] for word in f}
 
     def train_extract(self, sents, min_frequency=3, min_noun_score=0.4,
             noun_candidates=None, min_feature_proportion=0.6):
-- 
2.43.0


From d0f4477e061b3a435d91ee0dbb468e51fbdf680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 07/63] fix: failed training must not replace nor corrupt the
 trained counts

---
 soynlp/word/_phrase.py | 10 ++++++++++
 soynlp/word/_word.py   |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 316821a..8d533ff 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -27,12 +27,22 @@ class Bigram:
         self.tokenizer = tokenizer
         self.ngram_selector = ngram_selector
         self._counter = None
+        self._unigram = None
 
     @property
     def is_trained(self):
         return self._counter
 
     def train(self, sentences):
+        trained = self._counter, self._unigram
+        try:
+            self._train(sentences)
+        except BaseException:
+            # counts of a part of sentences are not a model
+            self._counter, self._unigram = trained
+            raise
+
+    def _train(self, sentences):
 
         def to_bigram(words):
             bigrams = [(w0, w1) for w0, w1 in zip(words, words[1:])]
diff --git a/soynlp/word/_word.py b/soynlp/word/_word.py
index 79d9c26..1f6b308 100644
--- a/soynlp/word/_word.py
+++ b/soynlp/word/_word.py
@@ -55,6 +55,15 @@ class WordExtractor:
             self.train(sents)
         
     def train(self, sents, num_for_pruning = 0, cumulate=True):
+        trained = self.L, self.R, self._aL, self._aR
+        try:
+            self._train(sents, num_for_pruning, cumulate)
+        except BaseException:
+            # counts of a part of sents are not a model
+            self.L, self.R, self._aL, self._aR = trained
+            raise
+
+    def _train(self, sents, num_for_pruning, cumulate):
         check_corpus(sents)
 
         def prune_extreme_case():
-- 
2.43.0


From 7bdd6b7724467e66b4226aaf3ec8302a1bf3b8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 08/63] fix: failed training of LRNounExtractor must keep the
 trained model

---
 soynlp/noun/_noun_ver1.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index 425b74a..d200585 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -70,10 +70,12 @@ class LRNounExtractor:
 
     def train(self, sents, min_noun_frequency=5):
         check_corpus(sents)
-        wordset_l, wordset_r = self._scan_vocabulary(sents, min_noun_frequency)
+        substring_counter, wordset_l, wordset_r = self._scan_vocabulary(
+            sents, min_noun_frequency)
         lrgraph = self._build_lrgraph(sents, wordset_l, wordset_r)
         self.lrgraph = LRGraph(lrgraph)
         self.words = wordset_l
+        self._substring_counter = substring_counter
 
     def _scan_vocabulary(self, sents, min_frequency=5):
         """
@@ -103,15 +105,15 @@ class LRNounExtractor:
                 message = 'scanning {} / {} sents'.format(i+1, len(sents))
                 print('\r[Noun Extractor] {}'.format(message), end='')
 
-        self._substring_counter = {w:f for w,f in wordset_l.items() if f >= min_frequency}
-        wordset_l = set(self._substring_counter.keys())
+        substring_counter = {w:f for w,f in wordset_l.items() if f >= min_frequency}
+        wordset_l = set(substring_counter.keys())
         wordset_r = {w for w,f in wordset_r.items() if f >= min_frequency}
 
         if self.verbose:
             message = '(L,R) has (%d, %d) tokens' % (len(wordset_l), len(wordset_r))
             print('\r[Noun Extractor] scanning was done {}'.format(message))
 
-        return wordset_l, wordset_r
+        return substring_counter, wordset_l, wordset_r
 
     def _build_lrgraph(self, sents, wordset_l, wordset_r):
         lrgraph = defaultdict(lambda: defaultdict(lambda: 0))
-- 
2.43.0


From fdd5cce730d0fef19e6d9f781b342fb31f19e643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 09/63] fix: interrupted noun extraction must not leave a
 consumed L-R graph

---
 soynlp/noun/_noun_ver1.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index d200585..f560aef 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -274,12 +274,12 @@ class LRNounExtractor:
 
     def _to_NounScore(self, nouns):
         noun_frequencies = {}
+        lrgraph = self.lrgraph.copy_compatified_lrgraph_origin()
         for word in sorted(nouns, key=lambda x:-len(x)):
-            r_count = self.lrgraph.get_r(word, -1)
+            r_count = lrgraph.get_r(word, -1)
             noun_frequencies[word] = sum(c for w, c in r_count)
             for r, count in r_count:
-                self.lrgraph.remove_eojeol(word+r, count)
-        self.lrgraph.reset_lrgraph()
+                lrgraph.remove_eojeol(word+r, count)
 
         nouns_ = {}
         for word, score in nouns.items():
-- 
2.43.0


From 70d6c8751f5ac0f467b854004070976a1e24e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 10/63] fix: interrupted extraction of LRNounExtractor_v2 must
 not leave a consumed L-R graph

---
 soynlp/noun/_noun_ver2.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 92a228c..358cd28 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -241,6 +241,14 @@ class LRNounExtractor_v2:
                 len(self._pos_features_extracted)))
 
     def extract(self, min_noun_score=0.3, min_noun_frequency=1, reset_lrgraph=True):
+        try:
+            return self._extract(min_noun_score, min_noun_frequency, reset_lrgraph)
+        except BaseException:
+            # eojeols removed halfway must be considered again in the next extraction
+            self.lrgraph.reset_lrgraph()
+            raise
+
+    def _extract(self, min_noun_score, min_noun_frequency, reset_lrgraph):
 
         # reset covered eojeol count
         self._num_of_covered_eojeols = 0
-- 
2.43.0


From f332375569ce0cee7d528d3250a1d4d5201197e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 11/63] fix: LRNounExtractor_v2 accepts postprocessing methods

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 358cd28..6979da1 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -45,7 +45,7 @@ class LRNounExtractor_v2:
                 'ignore_features',
                 'ignore_NJ'
             ]
-        elif isinstance(postprocessing) == str:
+        elif isinstance(postprocessing, str):
             postprocessing = [postprocessing]
 
         self.postprocessing = postprocessing
-- 
2.43.0


From ca5559654ef985107a9f5e66ee7ad323ea856268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 12/63] fix: to_lrgraph ignores one syllable eojeols when it is
 asked to

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 9526602..9107177 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -294,7 +294,7 @@ class EojeolCounter:
         return self._counter.items()
 
     def to_lrgraph(self, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
-        return self._to_lrgraph(self._counter, l_max_length, r_max_length)
+        return self._to_lrgraph(self._counter, l_max_length, r_max_length, ignore_one_syllable)
 
     def _to_lrgraph(self, counter, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
         _lrgraph = defaultdict(lambda: defaultdict(int))
-- 
2.43.0


From edba849e4f93111bc2df4724ece99052f81bb8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 13/63] fix: LRGraph must not share its graph with the caller

---
 soynlp/utils/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 9107177..624a0f0 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -345,7 +345,9 @@ class LRGraph:
                     'Inserted lrgraph will be ignored. Insert only one (lrgraph, sents)')
             lrgraph = self._construct_graph(sents)
         if lrgraph:
-            self._lr, self._rl = self._check_lrgraph(lrgraph)
+            lr, self._rl = self._check_lrgraph(lrgraph)
+            # do not share with the graph of the caller
+            self._lr = {l:dict(rdict) for l, rdict in lr.items()}
         else:
             self._lr, self._rl = {}, {}
 
-- 
2.43.0


From 0b8edd366fc380487cf6dba0131a40a9e24a3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 14/63] fix: LRGraph built from sents counts each eojeol once

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 624a0f0..f06dea3 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -363,7 +363,7 @@ class LRGraph:
                     l, r = word[:e], word[e:]
                     if len(r) > self.r_max_length:
                         continue
-                    lrgraph[l][r] += e
+                    lrgraph[l][r] += 1
         lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         return lrgraph
 
-- 
2.43.0


From 97c611ae5ae25975ab11c28f64d464cb798163c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 15/63] fix: LRGraph accepts unseen (l, r) pairs and eojeols

---
 soynlp/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index f06dea3..78e98ec 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -401,9 +401,11 @@ class LRGraph:
         )
 
     def add_lr_pair(self, l, r, count=1):
-        self._lr[l][r] += count
+        rdict = self._lr.setdefault(l, {})
+        rdict[r] = rdict.get(r, 0) + count
         if r:
-            self._rl[r][l] += count
+            ldict = self._rl.setdefault(r, {})
+            ldict[l] = ldict.get(l, 0) + count
 
     def add_eojeol(self, eojeol, count=1):
         for i in range(1, len(eojeol) + 1):
-- 
2.43.0


From 70b031fdd57959344342bb6b55ee624681e503bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 16/63] fix: Dictionary must not share sets with its caller,
 and takes any words

---
 soynlp/postagger/_dictionary.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index ef2df77..70d60e8 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -11,12 +11,13 @@ from soynlp.utils import atomic_write
 class Dictionary:
     def __init__(self, pos_dict):
         if isinstance(pos_dict, dict):
+            # do not share with the dictionary of the caller
+            self.pos_dict = {}
             for key in pos_dict:
                 if sys.version_info.major == 2:
-                    pos_dict[key] = set(map(unicode, pos_dict[key]))
+                    self.pos_dict[key] = set(map(unicode, pos_dict[key]))
                 else:
-                    pos_dict[key] = set(pos_dict[key])
-            self.pos_dict = pos_dict
+                    self.pos_dict[key] = set(pos_dict[key])
             self.max_length = self._check_max_length(self.pos_dict)
         elif isinstance(pos_dict, str):
             if os.path.exists(pos_dict):
@@ -25,7 +26,7 @@ class Dictionary:
                 raise ValueError('dictionary file does not exist')
 
     def _check_max_length(self, pos_dict):
-        return max((len(word) for words in pos_dict.values() for word in words))
+        return max((len(word) for words in pos_dict.values() for word in words), default=0)
 
     def get_pos(self, word):
         tags = []
@@ -44,7 +45,7 @@ class Dictionary:
             message = 'Check your tag or use add_words(tag, words, force=True)'.format(tag)
             raise ValueError(message)
 
-        max_length = max((len(word) for word in words))
+        max_length = max((len(word) for word in words), default=0)
         if self.max_length < max_length:
             self.max_length = max_length
 
@@ -69,8 +70,8 @@ class Dictionary:
 
     def _type_check(self, words):
         if isinstance(words, str):
-            words = set(words.split())
-        return words
+            words = words.split()
+        return set(words)
 
     def load(self, filename):
         if sys.version_info.major == 2:
-- 
2.43.0


From 715cb7dc273ea6c496c600398c770fe317f23f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 17/63] fix: PredicatorExtractor must not change the inputs of
 its caller

---
 soynlp/predicator/_predicator.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index bb711ee..7bbae9c 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -49,11 +49,12 @@ class PredicatorExtractor:
             eomis = self._load_default_eomis()
 
         self._josas = josas
-        self._adjective_stems = adjectives
-        self._verb_stems = verbs
+        # do not share with the caller; they are updated while extracting
+        self._adjective_stems = set(adjectives)
+        self._verb_stems = set(verbs)
         self._stems = {stem for stem in adjectives}
         self._stems = self._stems.union(verbs)
-        self._eomis = eomis
+        self._eomis = set(eomis)
         self.verbose = verbose
         self.extract_eomi = extract_eomi
         self.extract_stem = extract_stem
@@ -216,10 +217,12 @@ class PredicatorExtractor:
         self._train_with_eojeol_counter(eojeol_counter)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
-        eojeol_counter._counter = {
+        # do not filter the counter of the caller
+        counter = {
             eojeol:count for eojeol, count in eojeol_counter._counter.items()
             if count >= min_eojeol_frequency}
-
+        eojeol_counter = EojeolCounter()
+        eojeol_counter._counter = counter
         eojeol_counter._set_count_sum()
         self._num_of_eojeols = len(eojeol_counter)
         self._num_of_covered_eojeols = 0
-- 
2.43.0


From 7c9397895f992d4e4bb16be0fc84e7a2a08ec08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 18/63] fix: NewsNounExtractor.extract must not depend on the
 previous extraction

---
 soynlp/noun/_noun_news.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index f4edde1..236de59 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -14,7 +14,8 @@ class NewsNounExtractor:
         self.max_right_length = max_right_length
         self.verbose = verbose
         self.r_scores = {}
-        self.noun_dictionary = noun_dictionary if base_noun_dictionary else {}
+        self._base_nouns = set(base_noun_dictionary) if base_noun_dictionary else set()
+        self.noun_dictionary = {}
 
         import os
         directory = '/'.join(os.path.abspath(__file__).replace('\\', '/').split('/')[:-2])
@@ -109,6 +110,8 @@ class NewsNounExtractor:
     def extract(self, min_noun_score=0.4, min_frequency=3,
             noun_candidates=None, min_feature_proportion=0.6):
 
+        # begin with base nouns, not with the result of the previous extraction
+        self.noun_dictionary = {noun:0 for noun in self._base_nouns}
         self._pre_eojeol_analysis(min_frequency)
 
         if not noun_candidates:
@@ -146,7 +149,7 @@ class NewsNounExtractor:
         del self._noun_scores_
         del self._noun_scores_postprocessed
 
-        return self.noun_dictionary
+        return dict(self.noun_dictionary)
 
     def _pre_eojeol_analysis(self, min_frequency=3, min_eojeol_proportion=0.99):
         def eojeol_to_NV(l, max_eojeol_proportion=0.5, min_noun_score=0.4):
-- 
2.43.0


From b6dff208a02680513006a6f1d09059626d9d6a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 19/63] fix: extract of POS extractors must not depend on the
 previous extraction

---
 soynlp/pos/_news_pos.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/soynlp/pos/_news_pos.py b/soynlp/pos/_news_pos.py
index b6b95ee..c474227 100644
--- a/soynlp/pos/_news_pos.py
+++ b/soynlp/pos/_news_pos.py
@@ -61,6 +61,8 @@ class NewsPOSExtractor:
         self.verb_stems = self.predicator_extractor._verb_stems
         self.eomis = self.predicator_extractor._eomis
         self.josas = self.predicator_extractor._josas
+        self._trained = (self.adjectives, self.verbs, self.adjective_stems,
+            self.verb_stems, self.eomis, self.josas)
         self.adverbs = load_default_adverbs()
         self.adverbs.update(stem_to_adverb(self.adjective_stems))
         self.adverbs.update(stem_to_adverb(self.verb_stems))
@@ -70,6 +72,13 @@ class NewsPOSExtractor:
 
     def extract(self):
 
+        # They are extended while extracting.
+        # Begin with the trained ones, not with the result of the previous extraction
+        adjectives, verbs, adjective_stems, verb_stems, eomis, josas = self._trained
+        self.adjectives, self.verbs = dict(adjectives), dict(verbs)
+        self.adjective_stems, self.verb_stems = set(adjective_stems), set(verb_stems)
+        self.eomis, self.josas = set(eomis), set(josas)
+
         nouns, adjectives, verbs, adverbs, josas, irrecognized, confused_nouns = self._count_matched_patterns()
 
         adjectives = self._as_predicator(adjectives,
-- 
2.43.0


From 5569848cb4419ce6440882355bdf8f3197a72644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 20/63] fix: MaxLRScoreTokenizer must neither lose nor repeat
 characters

---
 soynlp/tokenizer/_tokenizer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index e194591..dba6d7b 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -416,7 +416,7 @@ class MaxLRScoreTokenizer:
         adds = []
         if words and words[0][2] > 0:
             adds += self._add_first_subword(t, words)
-        if words and words[-1][3] < n:
+        if words and words[-1][4] < n:
             adds += self._add_last_subword(t, words, n)
         adds += self._add_inter_subwords(t, words)
         post = [w for w in words] + adds
@@ -434,7 +434,7 @@ class MaxLRScoreTokenizer:
         return adds
 
     def _add_last_subword(self, t, words, n):
-        b = words[-1][3]
+        b = words[-1][4]
         subword = t[b:]
         return self._base_tokenizing_subword(subword, b)
 
@@ -451,7 +451,8 @@ class MaxLRScoreTokenizer:
             n = len(w)
             # TODO: 여기를 바꿔야해
             if w in self.Dr:
-                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.base_tokenizer.scores[w]])
+                words_.append(['', w, b+b_, b+b_, b+b_+n, 0, n, n, 0, self.Dr[w]])
             else:
-                words_.append([w, '', b+b_, b+n, b+n, n, 0, n, 0, 0])
+                words_.append([w, '', b+b_, b+b_+n, b+b_+n, n, 0, n, 0, 0])
+            b_ += n
         return words_
\ No newline at end of file
-- 
2.43.0


From 8b392a0f90d8163b32c1f06039d51fcf50a64305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 21/63] fix: UnknowLRPostprocessor must not drop eojeols
 without candidates

---
 soynlp/postagger/_tagger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 17dde72..8f5e839 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -58,6 +58,8 @@ class BasePostprocessor:
 class UnknowLRPostprocessor(BasePostprocessor):
     def postprocess(self, token, words):
         n = len(token)
+        if not words:
+            return [LR(token, None, '', None, 0, n, n)]
         adds = []
         if words and words[0].b > 0:
             adds.append(self._add_first_subword(token, words))
-- 
2.43.0


From a64f71e1dca8c80ae5d2e5c33aab6f85048e9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 22/63] fix: tags of LRTemplateMatcher must not be in hash
 order

---
 soynlp/postagger/_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/postagger/_template.py b/soynlp/postagger/_template.py
index 18d0add..7eb9e2e 100644
--- a/soynlp/postagger/_template.py
+++ b/soynlp/postagger/_template.py
@@ -84,7 +84,7 @@ class LRTemplateMatcher(BaseTemplateMatcher):
     
     def _pos_L(self, word):
         poses = self.dictionary.get_pos(word)
-        poses = {pos for pos in poses if pos in self.ltags}
+        poses = [pos for pos in poses if pos in self.ltags]
         return poses
 
     def _initialize_L(self, t):
-- 
2.43.0


From ba89b92b8cc9273ac9f22a429396269622e78a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 23/63] fix: BaseVectorizer counts every occurrence as term
 frequency

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 0f57b4f..61c55dc 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -44,7 +44,7 @@ class BaseVectorizer:
             counter = Counter((token for token in self.tokenizer(doc)))
             for term, freq in counter.items():
                 df[term] = df.get(term, 0) + 1
-                tf[term] = tf.get(term, 0) + 1
+                tf[term] = tf.get(term, 0) + freq
 
         if self.verbose:
             print('\rscanning was done{}'.format(' '*40), flush=True)
-- 
2.43.0


From c3eb4ab29e915feee67828f7e1b0ae694b822fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 24/63] fix: (word, context) matrix is square and its order
 does not depend on hash seed

---
 soynlp/vectorizer/_word_context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index f959516..d88ef2e 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -43,7 +43,7 @@ def _scanning_vocabulary(sents, min_tf, tokenizer, verbose):
         _print_status('  - counting word frequency', i_sent, new_line=True)
 
     # filtering with min_tf    
-    vocab2idx = {word for word, count in word_counter.items() if count >= min_tf}
+    vocab2idx = [word for word, count in word_counter.items() if count >= min_tf]
     vocab2idx = {word:idx for idx, word in enumerate(
         sorted(vocab2idx, key=lambda w:-word_counter[w]))}
     idx2vocab = [word for word, _ in sorted(vocab2idx.items(), key=lambda w:w[1])]
@@ -113,7 +113,7 @@ def _encode_as_matrix(word2contexts, vocab2idx, verbose):
             rows.append(word_idx)
             cols.append(context_idx)
             data.append(cooccurrence)
-    x = csr_matrix((data, (rows, cols)))
+    x = csr_matrix((data, (rows, cols)), shape=(len(vocab2idx), len(vocab2idx)))
 
     if verbose:
         print('  - (word, context) matrix was constructed. shape = {}{}'.format(
-- 
2.43.0


From 9590e991052962c17cc51885b9eff3497066bfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 25/63] fix: Lemmatizer.candidates is callable

---
 soynlp/lemmatizer/_lemmatizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 8397c2e..3379f41 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -33,7 +33,7 @@ class Lemmatizer:
         for i in range(1, len(word) + 1):
             l = word[:i]
             r = word[i:]
-            candidates.update(self.lemma_candidate(l, r, self._predefined))
+            candidates.update(lemma_candidate(l, r, self._predefined))
         return candidates
 
 def debug_message(message, l, r):
-- 
2.43.0


From 1792c9eea8fd0e73aac1b3521d51011fa6116d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 26/63] fix: verbose EojeolPatternTrainer accepts short corpora

---
 soynlp/tokenizer/_tokenizer_builder.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 213621e..131746a 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -34,12 +34,12 @@ class EojeolPatternTrainer:
         After then, it builds lr-graph with sub-tokens appeared at least min count
         """
         
-        _ckpt = int(len(sents) / 40)
+        _ckpt = max(1, int(len(sents) / 40))
         
         wordset_l = defaultdict(lambda: 0)
         wordset_r = defaultdict(lambda: 0)
         
-        for i, sent in enumerate(sents):
+        for i_sent, sent in enumerate(sents):
             for token in sent.split(' '):
                 if not token:
                     continue
@@ -48,8 +48,8 @@ class EojeolPatternTrainer:
                     wordset_l[token[:i]] += 1
                 for i in range(1, min(self.max_right_length, token_len)):
                     wordset_r[token[-i:]] += 1
-            if self.verbose and (i % _ckpt == 0):
-                args = ('#' * int(i/_ckpt), '-' * (40 - int(i/_ckpt)), 100.0 * i / len(sent), '%', get_process_memory())
+            if self.verbose and (i_sent % _ckpt == 0):
+                args = ('#' * int(i_sent/_ckpt), '-' * (40 - int(i_sent/_ckpt)), 100.0 * i_sent / len(sents), '%', get_process_memory())
                 sys.stdout.write('\rscanning: %s%s (%.3f %s) %.3f Gb' % args)
             
         wordset_l = {w for w,f in wordset_l.items() if f >= self.min_frequency}
@@ -64,11 +64,11 @@ class EojeolPatternTrainer:
         self.wordset_l = wordset_l
         self.wordset_r = wordset_r
         self.wordset_r.add('')
-        _ckpt = int(len(sents) / 40)
+        _ckpt = max(1, int(len(sents) / 40))
         lrgraph = defaultdict(lambda: defaultdict(lambda: 0))
         rlgraph = defaultdict(lambda: defaultdict(lambda: 0))
         
-        for i, sent in enumerate(sents):
+        for i_sent, sent in enumerate(sents):
             for token in sent.split():
                 if not token:
                     continue
@@ -81,8 +81,8 @@ class EojeolPatternTrainer:
                     lrgraph[l][r] += 1
                     rlgraph[r][l] += 1
 
-            if self.verbose and (i % _ckpt == 0):
-                args = ('#' * int(i/_ckpt), '-' * (40 - int(i/_ckpt)), 100.0 * i / len(sents), '%', get_process_memory())
+            if self.verbose and (i_sent % _ckpt == 0):
+                args = ('#' * int(i_sent/_ckpt), '-' * (40 - int(i_sent/_ckpt)), 100.0 * i_sent / len(sents), '%', get_process_memory())
                 sys.stdout.write('\rbuilding lr-graph: %s%s (%.3f %s), memory = %.3f Gb' % args)
         if self.verbose:                       
             sys.stdout.write('\rbuilding lr-graph completed. memory = %.3f Gb' % get_process_memory())
-- 
2.43.0


From 44fe12cae963431be630e6da48c776c1b84c7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 27/63] fix: concurrent saves may create the same directory

---
 soynlp/utils/utils.py            | 8 ++++----
 soynlp/vectorizer/_vectorizer.py | 3 +--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 78e98ec..8273853 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -313,8 +313,8 @@ class EojeolCounter:
 
     def save(self, path):
         dirname = os.path.dirname(path)
-        if dirname and not os.path.exists(dirname):
-            os.makedirs(dirname)
+        if dirname:
+            os.makedirs(dirname, exist_ok=True)
         with atomic_write(path, encoding='utf-8') as f:
             for eojeol, count in sorted(self._counter.items(), key=lambda x:(-x[1], x[0])):
                 f.write('{} {}\n'.format(eojeol, count))
@@ -476,8 +476,8 @@ class LRGraph:
 
     def save(self, path):
         dirname = os.path.dirname(path)
-        if dirname and not os.path.exists(dirname):
-            os.makedirs(dirname)
+        if dirname:
+            os.makedirs(dirname, exist_ok=True)
         with atomic_write(path, encoding='utf-8') as f:
             for l, rdict in sorted(self._lr_origin.items()):
                 for r, c in sorted(rdict.items()):
diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 61c55dc..8642b3e 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -109,8 +109,7 @@ class BaseVectorizer:
 
         # directory check
         directory = os.path.dirname(file_path)
-        if not os.path.exists(directory):
-            os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
 
         # to file
         with atomic_write(file_path, encoding=encoding) as f:
-- 
2.43.0


From 45f5d28ba81a539ca60f8f166b301558de7c6803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 28/63] fix: failed training of extractors, vectorizer and
 pattern trainer keeps previous model

---
 soynlp/noun/_noun_news.py              |  4 ++++
 soynlp/noun/_noun_ver2.py              |  5 +++++
 soynlp/pos/_news_pos.py                | 14 ++++++++++++++
 soynlp/predicator/_predicator.py       | 16 ++++++++++++++--
 soynlp/tokenizer/_tokenizer_builder.py | 12 ++++++++----
 soynlp/utils/__init__.py               |  1 +
 soynlp/utils/utils.py                  | 11 +++++++++++
 soynlp/vectorizer/_vectorizer.py       |  5 +++++
 8 files changed, 62 insertions(+), 6 deletions(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index 236de59..2a9e889 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -1,6 +1,7 @@
 # -*- encoding:utf8 -*-
 
 from collections import namedtuple
+from soynlp.utils import all_or_nothing
 from soynlp.utils import check_corpus
 NewsNounScore = namedtuple('NewsNounScore', 'score frequency feature_proportion eojeol_proportion n_positive_feature unique_positive_feature_proportion')
 import sys
@@ -71,7 +72,10 @@ class NewsNounExtractor:
 
     def train(self, sents):
         check_corpus(sents)
+        with all_or_nothing(self):
+            self._train(sents)
 
+    def _train(self, sents):
         if self.verbose:
             print('scan vocabulary ... ')
 
diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 6979da1..db86efd 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -3,6 +3,7 @@ from collections import namedtuple
 import os
 
 from soynlp.normalizer import normalize_sent_for_lrgraph
+from soynlp.utils import all_or_nothing
 from soynlp.utils import check_corpus
 from soynlp.utils import check_dirs
 from soynlp.utils import EojeolCounter
@@ -146,6 +147,10 @@ class LRNounExtractor_v2:
         return self.extract(min_noun_score, min_noun_frequency, reset_lrgraph)
 
     def train(self, inputs, min_eojeol_frequency=1):
+        with all_or_nothing(self):
+            self._train(inputs, min_eojeol_frequency)
+
+    def _train(self, inputs, min_eojeol_frequency):
         if isinstance(inputs, LRGraph):
             self._train_with_lrgraph(inputs)
         elif isinstance(inputs, EojeolCounter):
diff --git a/soynlp/pos/_news_pos.py b/soynlp/pos/_news_pos.py
index c474227..757bd23 100644
--- a/soynlp/pos/_news_pos.py
+++ b/soynlp/pos/_news_pos.py
@@ -9,6 +9,7 @@ from soynlp.pos import stem_to_adverb
 from soynlp.predicator import Predicator
 from soynlp.predicator import PredicatorExtractor
 from soynlp.tokenizer import MaxScoreTokenizer
+from soynlp.utils import all_or_nothing
 from soynlp.utils import LRGraph
 
 
@@ -49,6 +50,19 @@ class NewsPOSExtractor:
         min_num_of_eomi_features=5, min_eomi_score=0.3, min_eomi_frequency=1,
         debug=False):
 
+        with all_or_nothing(self):
+            self._train(sents, min_num_of_noun_features,
+                max_frequency_when_noun_is_eojeol, min_noun_score,
+                min_noun_frequency, min_eojeol_frequency,
+                min_predicator_frequency, min_num_of_eomi_features,
+                min_eomi_score, min_eomi_frequency)
+
+    def _train(self, sents, min_num_of_noun_features,
+        max_frequency_when_noun_is_eojeol, min_noun_score,
+        min_noun_frequency, min_eojeol_frequency,
+        min_predicator_frequency, min_num_of_eomi_features,
+        min_eomi_score, min_eomi_frequency):
+
         self.nouns = self._train_noun_extractor(sents, min_num_of_noun_features,
             max_frequency_when_noun_is_eojeol, min_noun_score,
             min_noun_frequency, min_eojeol_frequency)
diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 7bbae9c..bd4ddf6 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -16,6 +16,7 @@ lrgraph : L-R graph including [stem + Ending], Adverbs,
 from collections import defaultdict
 from collections import namedtuple
 from soynlp.hangle import character_is_complete_korean
+from soynlp.utils import all_or_nothing
 from soynlp.utils import EojeolCounter
 from soynlp.utils import get_process_memory
 from soynlp.utils import LRGraph
@@ -161,6 +162,17 @@ class PredicatorExtractor:
         min_num_of_unique_R_char=10, min_entropy_of_R_char=0.5,
         min_entropy_of_R=1.5, min_stem_score=0.7, min_stem_frequency=100):
 
+        with all_or_nothing(self):
+            self._train(inputs, min_eojeol_frequency, filtering_checkpoint,
+                min_num_of_features, min_eomi_score, min_eomi_frequency,
+                min_num_of_unique_R_char, min_entropy_of_R_char,
+                min_entropy_of_R, min_stem_score, min_stem_frequency)
+
+    def _train(self, inputs, min_eojeol_frequency, filtering_checkpoint,
+        min_num_of_features, min_eomi_score, min_eomi_frequency,
+        min_num_of_unique_R_char, min_entropy_of_R_char,
+        min_entropy_of_R, min_stem_score, min_stem_frequency):
+
         # handle inputs
         if isinstance(inputs, LRGraph):
             self._train_with_eojeol_counter(
@@ -286,7 +298,7 @@ class PredicatorExtractor:
         extracted_eomis = {eomi for eomi in extracted_eomis if not (eomi in self._eomis)}
 
         n_before = len(self._eomis)
-        self._eomis.update(extracted_eomis)
+        self._eomis = self._eomis.union(extracted_eomis)
         n_after = len(self._eomis)
 
         if self.verbose:
@@ -314,7 +326,7 @@ class PredicatorExtractor:
         extracted_stems = {stem for stem in extracted_stems if not (stem in self._stems)}
 
         n_before = len(self._stems)
-        self._stems.update(extracted_stems)
+        self._stems = self._stems.union(extracted_stems)
         n_after = len(self._stems)
 
         if self.verbose:
diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 131746a..a082100 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -2,6 +2,7 @@
 
 from collections import defaultdict
 import sys
+from soynlp.utils import all_or_nothing
 from soynlp.utils import atomic_write
 from soynlp.utils import get_process_memory
 
@@ -19,9 +20,10 @@ class EojeolPatternTrainer:
         self.wordset_r = None
     
     def train(self, sents, wordset_l=None, wordset_r=None):
-        if (not wordset_l) or (not wordset_r):
-            wordset_l, wordset_r = self._scan_vocabulary(sents)
-        self.lrgraph, self.rlgraph = self._build_graph(sents, wordset_l, wordset_r)
+        with all_or_nothing(self):
+            if (not wordset_l) or (not wordset_r):
+                wordset_l, wordset_r = self._scan_vocabulary(sents)
+            self.lrgraph, self.rlgraph = self._build_graph(sents, wordset_l, wordset_r)
         # TODO more
         
     def _scan_vocabulary(self, sents):
@@ -61,9 +63,11 @@ class EojeolPatternTrainer:
         return wordset_l, wordset_r
     
     def _build_graph(self, sents, wordset_l, wordset_r):
+        # do not change the set of the caller
+        wordset_r = set(wordset_r)
+        wordset_r.add('')
         self.wordset_l = wordset_l
         self.wordset_r = wordset_r
-        self.wordset_r.add('')
         _ckpt = max(1, int(len(sents) / 40))
         lrgraph = defaultdict(lambda: defaultdict(lambda: 0))
         rlgraph = defaultdict(lambda: defaultdict(lambda: 0))
diff --git a/soynlp/utils/__init__.py b/soynlp/utils/__init__.py
index 707abfa..067f382 100644
--- a/soynlp/utils/__init__.py
+++ b/soynlp/utils/__init__.py
@@ -3,6 +3,7 @@ from .utils import get_process_memory
 from .utils import sort_by_alphabet
 from .utils import check_dirs
 from .utils import atomic_write
+from .utils import all_or_nothing
 from .utils import most_similar
 from .utils import check_corpus
 from .utils import DoublespaceLineCorpus
diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 8273853..b7c1fad 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -60,6 +60,17 @@ def atomic_write(filepath, mode='w', encoding=None):
             os.remove(temporary)
         raise
 
+@contextmanager
+def all_or_nothing(obj):
+    """If the block fails, `obj` has the attributes which it had before"""
+    attributes = dict(vars(obj))
+    try:
+        yield
+    except BaseException:
+        vars(obj).clear()
+        vars(obj).update(attributes)
+        raise
+
 def sort_by_alphabet(filepath):
     if sys.version.split('.')[0] == '2':
         with open(filepath) as f:
diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 8642b3e..581a767 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -1,6 +1,7 @@
 import os
 from collections import Counter
 from scipy.sparse import csr_matrix
+from soynlp.utils import all_or_nothing
 from soynlp.utils import atomic_write
 
 
@@ -33,6 +34,10 @@ class BaseVectorizer:
         return self.transform(docs)
 
     def fit(self, docs):
+        with all_or_nothing(self):
+            return self._fit(docs)
+
+    def _fit(self, docs):
         # counting
         df = {}
         tf = {}
-- 
2.43.0


From 85ac693457ab40d5dd061bfe7f30d67f2cff2bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 29/63] fix: PredicatorExtractor.extract does not depend on
 earlier extractions

---
 soynlp/predicator/_predicator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index bd4ddf6..9dfbd39 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -66,7 +66,7 @@ class PredicatorExtractor:
 
         nouns = self._remove_stem_prefix(nouns)
         self._nouns = nouns
-        self._eomis_ = {eomi for eomi in self._eomis} # original eomis
+        self._eomis_ = {eomi for eomi in self._eomis} # trained eomis
 
     def _load_default_josa(self):
         path = '%s/postagger/dictionary/default/Josa/josa_chat.txt' % installpath
@@ -173,6 +173,9 @@ class PredicatorExtractor:
         min_num_of_unique_R_char, min_entropy_of_R_char,
         min_entropy_of_R, min_stem_score, min_stem_frequency):
 
+        # eomis removed by an extraction do belong to the model
+        self._eomis = set(self._eomis_)
+
         # handle inputs
         if isinstance(inputs, LRGraph):
             self._train_with_eojeol_counter(
@@ -200,6 +203,8 @@ class PredicatorExtractor:
                 min_entropy_of_R_char, min_entropy_of_R,
                 min_stem_score, min_stem_frequency)
 
+        self._eomis_ = set(self._eomis)
+
         if self.verbose:
             message = 'has been trained'
             self._print(message, replace=False, newline=True)
@@ -254,6 +259,9 @@ class PredicatorExtractor:
         # reset covered eojeol count
         self._num_of_covered_eojeols = 0
 
+        # begin with the trained eomis, not with the rest of the previous extraction
+        self._eomis = set(self._eomis_)
+
         predicators = self._extract_predicator(
             candidates, min_predicator_frequency)
 
-- 
2.43.0


From 366f4f3c8de1e83ea371ff7c916e330806785d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 30/63] fix: progress messages of an empty model do not fail

---
 soynlp/noun/_noun_ver2.py        | 2 +-
 soynlp/pos/_news_pos.py          | 2 +-
 soynlp/predicator/_predicator.py | 1 -
 3 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index db86efd..fc4185f 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -643,5 +643,5 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] flushing was done. mem={} Gb{}'.format(
                 '%.3f' % get_process_memory(), ' '*20), flush=True)
             coverage = '%.2f' % (100 * self._num_of_covered_eojeols
-                / self._num_of_eojeols)
+                / max(1, self._num_of_eojeols))
             print('[Noun Extractor] {} % eojeols are covered'.format(coverage), flush=True)
\ No newline at end of file
diff --git a/soynlp/pos/_news_pos.py b/soynlp/pos/_news_pos.py
index 757bd23..fabeb95 100644
--- a/soynlp/pos/_news_pos.py
+++ b/soynlp/pos/_news_pos.py
@@ -414,7 +414,7 @@ class NewsPOSExtractor:
 
         print('\n[POS Extractor] ## statistics')
 
-        as_percent = lambda dic: 100 * sum(dic.values()) / total_frequency
+        as_percent = lambda dic: 100 * sum(dic.values()) / max(1, total_frequency)
 
         stats = [
             (len(nouns), as_percent(nouns), 'Noun + [Josa/Predicator]'),
diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 9dfbd39..e9e388c 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -412,7 +412,6 @@ class PredicatorExtractor:
 
         lemmas = self._remove_wrong_eomis(lemmas, eomi_to_word_count)
         if self.verbose:
-            perc = '%.3f' % (100 * self._count_of_covered_eojeols / self._count_of_eojeols)
             message = 'lemma candidating was done'
             self._print(message, replace=True, newline=True)
 
-- 
2.43.0


From df755e3fd4368d7ec2a084f39c2e5fbe9b818323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 31/63] fix: interrupted training of LRNounExtractor keeps a
 consistent model

---
 soynlp/noun/_noun_ver1.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index f560aef..6dacad4 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -5,6 +5,7 @@ import math
 import sys
 from soynlp.normalizer import normalize_sent_for_lrgraph
 from soynlp.word import WordExtractor
+from soynlp.utils import all_or_nothing
 from soynlp.utils import check_corpus
 from soynlp.utils import LRGraph
 
@@ -73,9 +74,10 @@ class LRNounExtractor:
         substring_counter, wordset_l, wordset_r = self._scan_vocabulary(
             sents, min_noun_frequency)
         lrgraph = self._build_lrgraph(sents, wordset_l, wordset_r)
-        self.lrgraph = LRGraph(lrgraph)
-        self.words = wordset_l
-        self._substring_counter = substring_counter
+        with all_or_nothing(self):
+            self.lrgraph = LRGraph(lrgraph)
+            self.words = wordset_l
+            self._substring_counter = substring_counter
 
     def _scan_vocabulary(self, sents, min_frequency=5):
         """
-- 
2.43.0


From 8dd3d86ac35858070ac6ec5fca6422f53d443399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 32/63] fix: POS and stem extraction do not swallow
 KeyboardInterrupt

---
 soynlp/pos/_news_pos.py    | 2 +-
 soynlp/predicator/_stem.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/pos/_news_pos.py b/soynlp/pos/_news_pos.py
index fabeb95..b38ce62 100644
--- a/soynlp/pos/_news_pos.py
+++ b/soynlp/pos/_news_pos.py
@@ -233,7 +233,7 @@ class NewsPOSExtractor:
         for i in range(len(word) + 1, 0, -1):
             try:
                 lemmas = lemma_candidate(word[:i], word[i:])
-            except:
+            except Exception:
                 continue
             lemmas = only_knowns(lemmas)
             if lemmas:
diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index cb32cf6..8e9d5a9 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -57,7 +57,7 @@ class StemExtractor:
                         l, r = word[:stem_len], word[stem_len:]
                         stem_surfaces.add(l)
                         eomi_surfaces.add(r)
-                except:
+                except Exception:
                     continue
 
         if self.verbose:
@@ -258,7 +258,7 @@ class StemExtractor:
                             continue
                         stems[stem] = merge_score(
                             freq0, score0, *stems.get(stem, (0, 0)))
-                except:
+                except Exception:
                     continue
 
         return stems
\ No newline at end of file
-- 
2.43.0


From 706aae7929a74d2038d2d15ef4dc1c4c18a63b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 33/63] fix: SimpleTagger debug mode with EojeolTemplateMatcher

---
 soynlp/postagger/_tagger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 8f5e839..d100da5 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -39,7 +39,9 @@ class SimpleTagger(BaseTagger):
             
             if debug:
                 scored_candidates = [(c, self.evaluator.evaluate(c)) for c in candidates]
-                scored_candidates = sorted(scored_candidates, key=lambda x:(x[0].b, x[1]))
+                # candidate is LR or list of LR (EojeolTemplateMatcher)
+                scored_candidates = sorted(scored_candidates, key=lambda x:(
+                    x[0].b if isinstance(x[0], LR) else x[0][0].b, x[1]))
                 debug_.append(scored_candidates)
         
         # Flatten in a sentence
-- 
2.43.0


From 3ca728266d5c0f86559a9c4f2da5bb28327e9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 34/63] fix: LREvaluator returns words in the order of the
 sentence

---
 soynlp/postagger/_evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_evaluator.py b/soynlp/postagger/_evaluator.py
index d84a9f6..df3ef29 100644
--- a/soynlp/postagger/_evaluator.py
+++ b/soynlp/postagger/_evaluator.py
@@ -76,7 +76,7 @@ class LREvaluator(BaseEvaluator):
     def select_best(self, candidates):
         scored_candidates = [(c, self.evaluate(c)) for c in candidates]
         best = self._remove_overlapped(scored_candidates)
-        return sorted(best, key=lambda x:x[2])
+        return sorted(best, key=lambda x:x.b)
     
     def evaluate(self, candidate):
         is_noun_phrase = candidate.l_tag == 'Noun'
@@ -120,4 +120,4 @@ class LREvaluator(BaseEvaluator):
             for idx in reversed(removals):
                 del sorted_[idx]
                 
-        return sorted(best, key=lambda x:x[2])
\ No newline at end of file
+        return sorted(best, key=lambda x:x.b)
\ No newline at end of file
-- 
2.43.0


From bc7d53bf4e478762bf043c0e9b59609eb89f047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 35/63] fix: EojeolPatternTrainer must not share its word set
 with the caller

---
 soynlp/tokenizer/_tokenizer_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index a082100..0e84d27 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -64,6 +64,7 @@ class EojeolPatternTrainer:
     
     def _build_graph(self, sents, wordset_l, wordset_r):
         # do not change the set of the caller
+        wordset_l = set(wordset_l)
         wordset_r = set(wordset_r)
         wordset_r.add('')
         self.wordset_l = wordset_l
-- 
2.43.0


From 0f7c4f48e4c1b687f7a9c314f81d1cc9f9d6b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 36/63] fix: to_file must not write a matrix which does not fit
 its header

---
 soynlp/vectorizer/_vectorizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 581a767..8e8fde4 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -123,6 +123,7 @@ class BaseVectorizer:
             f.write('%\n')
             f.write('{} {} {}\n'.format(n_docs, self.n_vocabs, n_elements))
             # doc term frequency
+            i, n_written = -1, 0
             for i, doc in enumerate(docs):
                 if self.verbose and i % self._check_points == 0:
                     print('\rwriting to file {} % {}'.format(
@@ -132,6 +133,9 @@ class BaseVectorizer:
                     for word in words if word in self.vocabulary_])
                 for j, count in words.items():
                     f.write('{} {} {}\n'.format(i+1, j+1, count))
+                n_written += len(words)
+            if (i + 1, n_written) != (n_docs, n_elements):
+                raise ValueError('docs must yield the same documents in every iteration')
         if self.verbose:
             print('\rwriting to file was done. {} docs'.format(n_docs), flush=True)
 
-- 
2.43.0


From 34a2919bd485afc34fde0c75d4727f537ef41663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:42 +0000
Subject: [PATCH 37/63] fix: interrupted load must not leave a half loaded
 object

---
 soynlp/postagger/_dictionary.py        |  6 +++--
 soynlp/tokenizer/_tokenizer_builder.py | 17 ++++++------
 soynlp/utils/utils.py                  | 16 +++++++-----
 soynlp/vectorizer/_vectorizer.py       |  9 ++++---
 soynlp/word/_word.py                   | 36 ++++++++++++++------------
 5 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 70d60e8..abfcc8d 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -6,6 +6,7 @@ if sys.version_info <= (2,7):
     sys.setdefaultencoding('utf-8')
 import json
 import os
+from soynlp.utils import all_or_nothing
 from soynlp.utils import atomic_write
 
 class Dictionary:
@@ -85,8 +86,9 @@ class Dictionary:
                 params = json.load(fp)
             pos_dict = {tag:set(words)
                 for tag, words in params['pos_dict'].items()}
-            self.max_length = params['max_length']
-            self.pos_dict = pos_dict
+            with all_or_nothing(self):
+                self.max_length = params['max_length']
+                self.pos_dict = pos_dict
 
     def save(self, filename):
         if sys.version_info.major == 2:
diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 0e84d27..9555193 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -155,14 +155,15 @@ class EojeolPatternTrainer:
             lrgraph = {l:{r:f for r,f in rdict.items()} for l,rdict in lrgraph.items()}
             rlgraph = {r:{l:f for l,f in ldict.items()} for r, ldict in rlgraph.items()}
 
-        self.max_left_length = args[0]
-        self.max_right_length = args[1]
-        self.min_frequency = args[2]
-        self.verbose = args[3] == 1
-        self.wordset_l = set(lrgraph.keys())
-        self.wordset_r = set(rlgraph.keys())
-        self.lrgraph = lrgraph
-        self.rlgraph = rlgraph
+        with all_or_nothing(self):
+            self.max_left_length = args[0]
+            self.max_right_length = args[1]
+            self.min_frequency = args[2]
+            self.verbose = args[3] == 1
+            self.wordset_l = set(lrgraph.keys())
+            self.wordset_r = set(rlgraph.keys())
+            self.lrgraph = lrgraph
+            self.rlgraph = rlgraph
 
     def train_hits(lrgraph=None, rlgraph=None, sum_of_rank=10000, decaying_factor=0.9, max_iter=10, tolerance=0.0001):
         def normalize(g, sum_of_rank, df):
diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index b7c1fad..d159b41 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -336,9 +336,10 @@ class EojeolCounter:
             for line in f:
                 word, count = line.split()
                 counter[word] = int(count)
-        self._coverage = 0.0
-        self._counter = counter
-        self._count_sum = sum(self._counter.values())
+        with all_or_nothing(self):
+            self._coverage = 0.0
+            self._counter = counter
+            self._count_sum = sum(self._counter.values())
 
 class LRGraph:
 
@@ -514,7 +515,8 @@ class LRGraph:
                     raise ValueError('Wrong lr-graph format: {}'.format(line))
             if rdict:
                 lr_origin[l] = rdict
-        self._lr, self._rl = self._check_lrgraph(
-            {l:{r:c for r,c in rdict.items()}
-             for l,rdict in lr_origin.items()})
-        self._lr_origin = lr_origin
+        with all_or_nothing(self):
+            self._lr, self._rl = self._check_lrgraph(
+                {l:{r:c for r,c in rdict.items()}
+                 for l,rdict in lr_origin.items()})
+            self._lr_origin = lr_origin
diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 8e8fde4..3824c5d 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -167,10 +167,11 @@ class BaseVectorizer:
     def load(self, fname):
         if fname[-6:] != '.vocab':
             fname += '.vocab'
-        with open(fname, encoding='utf-8') as f:
-            self.idx2vocab = [term.strip() for term in f]
-        self.vocabulary_ = {term:idx for idx, term in enumerate(self.idx2vocab)}
-        self.n_vocabs = len(self.idx2vocab)
+        with all_or_nothing(self):
+            with open(fname, encoding='utf-8') as f:
+                self.idx2vocab = [term.strip() for term in f]
+            self.vocabulary_ = {term:idx for idx, term in enumerate(self.idx2vocab)}
+            self.n_vocabs = len(self.idx2vocab)
 
     def vocabs(self):
         return [term for term in sorted(self.vocabulary_, key=lambda x:self.vocabulary_[x])]
diff --git a/soynlp/word/_word.py b/soynlp/word/_word.py
index 1f6b308..bd1d376 100644
--- a/soynlp/word/_word.py
+++ b/soynlp/word/_word.py
@@ -6,6 +6,7 @@ import math
 import numpy as np
 import pickle
 import sys
+from soynlp.utils import all_or_nothing
 from soynlp.utils import atomic_write
 from soynlp.utils import get_process_memory
 from soynlp.utils import check_corpus
@@ -298,25 +299,26 @@ class WordExtractor:
         configuration = {name:configuration[name] for name in names}
         data = {name:dict(params['data'][name]) for name in ('L', 'R', 'aL', 'aR')}
 
-        self.max_left_length = configuration['max_left_length']
-        self.max_right_length = configuration['max_right_length']
-        self.min_frequency = configuration['min_frequency']
-        self.verbose = configuration['verbose_points']
+        with all_or_nothing(self):
+            self.max_left_length = configuration['max_left_length']
+            self.max_right_length = configuration['max_right_length']
+            self.min_frequency = configuration['min_frequency']
+            self.verbose = configuration['verbose_points']
 
-        self.min_cohesion_forward = configuration['min_cohesion_forward']
-        self.min_cohesion_backward = configuration['min_cohesion_backward']
-        #self.max_droprate_cohesion = configuration['max_droprate_cohesion']
-        self.max_droprate_leftside_frequency = configuration['max_droprate_leftside_frequency']
-        self.min_left_branching_entropy = configuration['min_left_branching_entropy']
-        self.min_right_branching_entropy = configuration['min_right_branching_entropy']
-        self.min_left_accessor_variety = configuration['min_left_accessor_variety']
-        self.min_right_accessor_variety = configuration['min_right_accessor_variety']
-        self.remove_subwords = configuration['remove_subwords']
+            self.min_cohesion_forward = configuration['min_cohesion_forward']
+            self.min_cohesion_backward = configuration['min_cohesion_backward']
+            #self.max_droprate_cohesion = configuration['max_droprate_cohesion']
+            self.max_droprate_leftside_frequency = configuration['max_droprate_leftside_frequency']
+            self.min_left_branching_entropy = configuration['min_left_branching_entropy']
+            self.min_right_branching_entropy = configuration['min_right_branching_entropy']
+            self.min_left_accessor_variety = configuration['min_left_accessor_variety']
+            self.min_right_accessor_variety = configuration['min_right_accessor_variety']
+            self.remove_subwords = configuration['remove_subwords']
 
-        self.L = data['L']
-        self.R = data['R']
-        self._aL = data['aL']
-        self._aR = data['aR']
+            self.L = data['L']
+            self.R = data['R']
+            self._aL = data['aL']
+            self._aR = data['aR']
 
         del params
         del configuration
-- 
2.43.0


From 87c3998374d3258e6d979d90b43c2386af1a295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 38/63] fix: v2 noun extractor swaps frequency and score of
 compounds

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index fc4185f..feb07a0 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -529,7 +529,7 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] checked compounds. discovered {} compounds'.format(
                 len(compounds_scores)))
 
-        compounds = {noun:(score, compounds_counts.get(noun,0))
+        compounds = {noun:(compounds_counts.get(noun,0), score)
              for noun, score in compounds_scores.items()}
 
         self._compounds_components = compounds_components
-- 
2.43.0


From 6a812ca5225604ffeca47af74669293fa04f6531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 39/63] fix: v2 noun extractor confuses frequency with score of
 predictions

---
 soynlp/noun/_josa.py      | 4 ++--
 soynlp/noun/_noun_ver2.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/soynlp/noun/_josa.py b/soynlp/noun/_josa.py
index 62ac3cb..1b22ab1 100644
--- a/soynlp/noun/_josa.py
+++ b/soynlp/noun/_josa.py
@@ -8,8 +8,8 @@ def extract_domain_pos_features(prediction_scores, lrgraph,
     min_noun_entropy=1.5):
 
     nouns = {noun for noun, score in prediction_scores.items()
-             if ((score[0] >= min_noun_score) 
-                 and (score[1] >= min_noun_frequency))}
+             if ((score[1] >= min_noun_score)
+                 and (score[0] >= min_noun_frequency))}
 
     if ignore_features is None:
         ignore_features = {}
diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index feb07a0..e2d1cd0 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -274,8 +274,8 @@ class LRNounExtractor_v2:
             with open(self.logpath+'_prediction_score.log', 'w', encoding='utf-8') as f:
                 f.write('noun score frequency\n')
 
-                for word, score in sorted(prediction_scores.items(), key=lambda x:-x[1][1]):
-                    f.write('{} {} {}\n'.format(word, score[0], score[1]))
+                for word, score in sorted(prediction_scores.items(), key=lambda x:-x[1][0]):
+                    f.write('{} {} {}\n'.format(word, score[1], score[0]))
 
         # E = N*J+ or N*Posi+
         if self.extract_compound:
-- 
2.43.0


From 25dcae030c28dcac7bb08827ef91cb4d5d1ad54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:28 +0000
Subject: [PATCH 40/63] fix: interrupted extraction of domain features must not
 leave a consumed L-R graph

---
 soynlp/noun/_noun_ver2.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index e2d1cd0..fc53884 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -219,10 +219,15 @@ class LRNounExtractor_v2:
         if not noun_candidates:
             noun_candidates = self._noun_candidates_from_positive_features()
 
-        prediction_scores = self._batch_predicting_nouns(
-            noun_candidates, min_noun_score)
+        try:
+            prediction_scores = self._batch_predicting_nouns(
+                noun_candidates, min_noun_score)
 
-        self.lrgraph.reset_lrgraph()
+            self.lrgraph.reset_lrgraph()
+        except BaseException:
+            # eojeols removed halfway must be considered again in the next extraction
+            self.lrgraph.reset_lrgraph()
+            raise
 
         self._pos_features_extracted = extract_domain_pos_features(
             prediction_scores,
-- 
2.43.0


From 0b34b6d5278faa2b75d2841a953adb129de377e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 41/63] fix: extracted stems must be those which occur with
 known eomis

---
 soynlp/predicator/_stem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index 8e9d5a9..d157355 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -250,11 +250,11 @@ class StemExtractor:
             return (freq0 + freq1, (score0 * freq0 + score1 * freq1) / (freq0 + freq1))
 
         stems = {}
-        for l, (freq0, score0) in surfaces.items():
+        for l, (score0, freq0) in surfaces.items():
             for r, count in self.lrgraph.get_r(l, -1):
                 try:
                     for stem, eomi in lemma_candidate(l, r):
-                        if eomi in self.eomis:
+                        if not (eomi in self.eomis):
                             continue
                         stems[stem] = merge_score(
                             freq0, score0, *stems.get(stem, (0, 0)))
-- 
2.43.0


From 03e517ab42c82e3a286a44514e2578057424e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 42/63] fix: predicator extractor with verbose=False prints
 progress of stem extraction

---
 soynlp/predicator/_predicator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index e9e388c..2d0d314 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -322,7 +322,8 @@ class PredicatorExtractor:
             eomis = self._eomis,
             min_num_of_unique_R_char = min_num_of_unique_R_char,
             min_entropy_of_R_char = min_entropy_of_R_char,
-            min_entropy_of_R = min_entropy_of_R
+            min_entropy_of_R = min_entropy_of_R,
+            verbose = self.verbose
         )
 
         extracted_stems = stem_extractor.extract(
-- 
2.43.0


From bd04529dbab7bb9150a77609ef55f304ba421577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 43/63] fix: PredicatorExtractor.is_trained raises
 AttributeError

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 2d0d314..d0b68b8 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -135,7 +135,7 @@ class PredicatorExtractor:
 
     @property
     def is_trained(self):
-        return self.lrgraph
+        return self.eojeol_counter is not None
 
     def train_extract(self, inputs, min_eojeol_frequency=2,
         filtering_checkpoint=100000, candidates=None,
-- 
2.43.0


From 5dc236d6beb42b9cfdbcab63e86f10073f008ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 44/63] fix: predicator training ignores min_eojeol_frequency
 for sentences

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index d0b68b8..106ef8b 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -231,7 +231,7 @@ class PredicatorExtractor:
             preprocess = preprocess
         )
 
-        self._train_with_eojeol_counter(eojeol_counter)
+        self._train_with_eojeol_counter(eojeol_counter, min_eojeol_frequency)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
         # do not filter the counter of the caller
-- 
2.43.0


From 73a17187cfb6c029cc354ecf004929eb94a93f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 45/63] fix: EomiExtractor cannot predict after an extraction

---
 soynlp/predicator/_eomi.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/soynlp/predicator/_eomi.py b/soynlp/predicator/_eomi.py
index 76218df..239a6c1 100644
--- a/soynlp/predicator/_eomi.py
+++ b/soynlp/predicator/_eomi.py
@@ -79,8 +79,6 @@ class EomiExtractor:
         if reset_lrgraph:
             self.lrgraph.reset_lrgraph()
 
-        del self._stem_surfaces
-
         lemmas_ = {eomi:EomiScore(score[0], score[1]) for eomi, score in lemmas.items()}
         return lemmas_
 
-- 
2.43.0


From eb14c608478f7a89e1b702ddaa5f9e271cdef13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 46/63] fix: interrupted extraction of eomis must not leave a
 consumed L-R graph

---
 soynlp/predicator/_eomi.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/soynlp/predicator/_eomi.py b/soynlp/predicator/_eomi.py
index 239a6c1..5d74715 100644
--- a/soynlp/predicator/_eomi.py
+++ b/soynlp/predicator/_eomi.py
@@ -3,6 +3,7 @@ from collections import namedtuple
 from soynlp.hangle import decompose
 from soynlp.lemmatizer import lemma_candidate
 from soynlp.lemmatizer import _conjugate_stem
+from soynlp.utils.utils import all_or_nothing
 
 EomiScore = namedtuple('EomiScore', 'frequency score')
 
@@ -35,6 +36,18 @@ class EomiExtractor:
     def extract(self, condition=None, min_eomi_score=0.3,
         min_eomi_frequency=1, reset_lrgraph=True):
 
+        try:
+            with all_or_nothing(self):
+                return self._extract(condition, min_eomi_score,
+                    min_eomi_frequency, reset_lrgraph)
+        except BaseException:
+            # eojeols removed halfway must be considered again in the next extraction
+            self.lrgraph.reset_lrgraph()
+            raise
+
+    def _extract(self, condition, min_eomi_score,
+        min_eomi_frequency, reset_lrgraph):
+
         # reset covered eojeol count and extracted eomis
         self._num_of_covered_eojeols = 0
         self._eomis = {}
-- 
2.43.0


From 47c3a5fe9fb629076c4e2a7b99b4e7890aeb3fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:19 +0000
Subject: [PATCH 47/63] fix: removing a wrong eomi drops words which have other
 lemmas

---
 soynlp/predicator/_predicator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 106ef8b..f799cb2 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -475,12 +475,12 @@ class PredicatorExtractor:
                 if not (word in lemmas):
                     continue
                 predicator = lemmas[word]
-                if len(predicator.lemma) == 1:
-                    lemmas.pop(word)
+                # a word may be listed more than once for an eomi
+                lemma_ = {lemma for lemma in predicator.lemma if lemma[1] != eomi}
+                if lemma_:
+                    lemmas[word] = Predicator(predicator.frequency, lemma_)
                 else:
-                    lemmas[word] = Predicator(
-                        predicator.frequency,
-                        {lemma for lemma in predicator.lemma if lemma[1] != eomi})
+                    lemmas.pop(word)
 
         return lemmas
 
-- 
2.43.0


From 011c521d6b0db5864981a407f7395a8151dbf0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 48/63] fix: ChatPOSExtractor loses the stems of compound
 predicators

---
 soynlp/pos/_chat_pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/pos/_chat_pos.py b/soynlp/pos/_chat_pos.py
index fdeda3d..44de49d 100644
--- a/soynlp/pos/_chat_pos.py
+++ b/soynlp/pos/_chat_pos.py
@@ -137,7 +137,7 @@ class ChatPOSExtractor(NewsPOSExtractor):
         wrong_stems = find_wrong_stem(predicator_compounds)
         predicator_compounds = delete_predicators_having_wrong_stem(
             predicator_compounds, wrong_stems)
-        stems = {stem for stem in wrong_stems if not (stem in wrong_stems)}
+        stems = {stem for stem in stems if not (stem in wrong_stems)}
         counter = {word:count for word, count in counter.items() if word in predicator_compounds}
         return predicator_compounds, stems, counter
 
-- 
2.43.0


From a55dd581973d01f33d3d837503fc0527101a6195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 49/63] fix: pmi_memory_friendly compares the wrong dimension
 of probabilities

---
 soynlp/word/_pmi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 5529404..22b9bb0 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -121,12 +121,12 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     assert 0 < beta <= 1
 
     # convert x to probability matrix & marginal probability 
-    px = (X.sum(axis=1) / X.sum()).reshape(-1)
+    px = np.asarray((X.sum(axis=1) / X.sum()).reshape(-1))
     if py is None:
-        py = (X.sum(axis=0) / X.sum()).reshape(-1)
+        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))
     pxy = X / X.sum()
 
-    assert py.shape[0] == pxy.shape[1]
+    assert py.shape[1] == pxy.shape[1]
 
     if beta < 1:
         py = py ** beta
-- 
2.43.0


From eb43ce2210d39a625088446ed2fe00f3d72ffb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 50/63] fix: train_hits is a method, and sums over all
 neighbors

---
 soynlp/tokenizer/_tokenizer_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 9555193..9c05b98 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -165,7 +165,7 @@ class EojeolPatternTrainer:
             self.lrgraph = lrgraph
             self.rlgraph = rlgraph
 
-    def train_hits(lrgraph=None, rlgraph=None, sum_of_rank=10000, decaying_factor=0.9, max_iter=10, tolerance=0.0001):
+    def train_hits(self, lrgraph=None, rlgraph=None, sum_of_rank=10000, decaying_factor=0.9, max_iter=10, tolerance=0.0001):
         def normalize(g, sum_of_rank, df):
             factor = df * sum_of_rank / sum(g.values())
             restart = (1 - df) * sum_of_rank / len(g)
@@ -183,14 +183,14 @@ class EojeolPatternTrainer:
         for n_iter in range(max_iter):
             next_rank_l = {}
             for l, rdict in lrgraph.items():
-                sum_rrank = sum({freq*rank_r[r] for r, freq in rdict.items() if r != ''})
+                sum_rrank = sum(freq*rank_r[r] for r, freq in rdict.items() if r != '')
                 next_rank_l[l] = sum_rrank
             next_rank_l = normalize(next_rank_l, sum_of_rank, decaying_factor)
 
             next_rank_r = {}
             for r, ldict in rlgraph.items():
                 if r == '': continue
-                sum_lrank = sum({freq*rank_l[l] for l, freq in ldict.items()})
+                sum_lrank = sum(freq*rank_l[l] for l, freq in ldict.items())
                 next_rank_r[r] = sum_lrank
             next_rank_r = normalize(next_rank_r, sum_of_rank, decaying_factor)
 
-- 
2.43.0


From 28f28652f178435bd097c56dae7296262a58811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 51/63] fix: most_similar returns topk items when others are as
 near as the query

---
 soynlp/utils/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index d159b41..3b51212 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -115,10 +115,11 @@ def most_similar(query, vector, item_to_idx, idx_to_item, topk=10):
         return []
     qvec = vector[q].reshape(1,-1)
     dist = pairwise_distances(qvec, vector, metric='cosine')[0]
-    sim_idxs = dist.argsort()
+    # other items may be as near as the query itself
+    sim_idxs = [idx for idx in dist.argsort() if idx != q]
     if topk > 0:
-        sim_idxs = sim_idxs[:topk+1]
-    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs if idx != q]
+        sim_idxs = sim_idxs[:topk]
+    similars = [(idx_to_item[idx], 1 - dist[idx]) for idx in sim_idxs]
     return similars
 
 def check_corpus(corpus):
-- 
2.43.0


From 996b3adfe5268313595f89c22e9838140814691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:23 +0000
Subject: [PATCH 52/63] fix: missing comma in the exported names of
 soynlp.utils

---
 soynlp/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/__init__.py b/soynlp/utils/__init__.py
index 067f382..a244826 100644
--- a/soynlp/utils/__init__.py
+++ b/soynlp/utils/__init__.py
@@ -13,7 +13,7 @@ from .math import svd
 
 __all__ = [
     # utils
-    'get_available_memory', 'get_process_memory', 'check_dirs'
+    'get_available_memory', 'get_process_memory', 'check_dirs',
     'sort_by_alphabet', 'most_similar', 'DoublespaceLineCorpus',
     'EojeolCounter', 'LRGraph',
     # math
-- 
2.43.0


From 86823e6a23f27df038361f45c82b59fce0c4c12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 53/63] fix: NounMatchTokenizer gives each compound its own
 score, and no empty words

---
 soynlp/tokenizer/_noun_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_noun_tokenizer.py b/soynlp/tokenizer/_noun_tokenizer.py
index 25d42c3..1c00edb 100644
--- a/soynlp/tokenizer/_noun_tokenizer.py
+++ b/soynlp/tokenizer/_noun_tokenizer.py
@@ -79,8 +79,9 @@ class NounMatchTokenizer:
                 if e == b_:
                     e, score = e_, max(score, score_)
                 else:
-                    words_.append((eojeol[b:e], b, e, score, e-b))
-                    b, e = b_, e_
+                    if e > b:
+                        words_.append((eojeol[b:e], b, e, score, e-b))
+                    b, e, score = b_, e_, score_
             if e > b:
                 words_.append((eojeol[b:e], b, e, score, e-b))
             return words_
-- 
2.43.0


From 163378e9546612724354e933a155dcca19438774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:13 +0000
Subject: [PATCH 54/63] fix: RegexTokenizer does not cut latin words after an s
 inside

---
 soynlp/tokenizer/_tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index dba6d7b..65d8667 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -16,7 +16,7 @@ class RegexTokenizer:
             ('korean', re.compile(u'[가-힣]+', re.UNICODE)),
             ('jaum', re.compile(u'[ㄱ-ㅎ]+', re.UNICODE)),
             ('moum', re.compile(u'[ㅏ-ㅣ]+', re.UNICODE)),
-            ('english & latin', re.compile(u"[a-zA-ZÀ-ÿ]+[[`']?s]*|[a-zA-ZÀ-ÿ]+", re.UNICODE))
+            ('english & latin', re.compile(u"[a-zA-ZÀ-ÿ]+(?:[`']s)*", re.UNICODE))
         ]
         
         self.doublewhite_pattern = re.compile('\s+')
-- 
2.43.0


From 106ad435ef7daacd5ec2166deeb1c9bc078c1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:13 +0000
Subject: [PATCH 55/63] fix: MaxScoreTokenizer reports the given score of short
 eojeols and gaps, which NounMatchTokenizer relies on

---
 soynlp/tokenizer/_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 65d8667..88f3dab 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -139,7 +139,7 @@ class MaxScoreTokenizer:
         
         length = len(token)
         if length <= 2:
-            return [(token, 0, length, self._ds, length)]
+            return [(token, 0, length, self._scores.get(token, self._ds), length)]
 
         if range_l == 0:
             range_l = min(self._max_length, length)
@@ -208,7 +208,8 @@ class MaxScoreTokenizer:
             b = base[2]
             e = result[i+1][1]
             subtoken = token[b:e]
-            adds.append((subtoken, b, e, self._ds, e - b))
+            score = self._scores.get(subtoken, self._ds)
+            adds.append((subtoken, b, e, score, e - b))
         
         return adds
 
-- 
2.43.0


From f480386ce39def57b7d73d3bf0262705cbbc4807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:13 +0000
Subject: [PATCH 56/63] fix: MaxLRScoreTokenizer compares R with the score of L
 also when L was scored before

---
 soynlp/tokenizer/_tokenizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 88f3dab..bbded23 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -389,8 +389,10 @@ class MaxLRScoreTokenizer:
                     if overlappped:
                         break
                     for word in begin_to_words.get(b, []):
-                        score_diff = word[-2] + self.Pl.get(word[0], 0) - score_r
-                        if (self.ensurable_score_l <= word[-2]) or (score_diff > self.ensurable_score_lr_diff):
+                        # scored words have one more item at the end
+                        word_score_l = word[8]
+                        score_diff = word_score_l + self.Pl.get(word[0], 0) - score_r
+                        if (self.ensurable_score_l <= word_score_l) or (score_diff > self.ensurable_score_lr_diff):
                             overlappped = True
                             break
                 if overlappped:
-- 
2.43.0


From b0c240e9e7ffb3a44d2ca4a56da333ddfbae14d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:17 +0000
Subject: [PATCH 57/63] fix: NewsNounExtractor looks for nouns of any length
 before verbs

---
 soynlp/noun/_noun_news.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index 2a9e889..d500e66 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -160,9 +160,9 @@ class NewsNounExtractor:
             n = len(l)
             if n < 4: return None
             for e in range(2, n-1):
-                (l, r) = (l[:e], l[e:])
-                if (self.predict(l)[0] >= min_noun_score) and (r in self._vdictionary):
-                    return (l, r)
+                (l0, r) = (l[:e], l[e:])
+                if (self.predict(l0)[0] >= min_noun_score) and (r in self._vdictionary):
+                    return (l0, r)
             return None
 
         candidates = {l:c for l,c in self.lcount.items()
-- 
2.43.0


From 64960f92cb2946c6d9a7ddb9b3c751e587697bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:17 +0000
Subject: [PATCH 58/63] fix: NewsNounExtractor compares min_feature_proportion
 with the proportion, not with the frequency

---
 soynlp/noun/_noun_news.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index d500e66..317c746 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -239,7 +239,7 @@ class NewsNounExtractor:
         self._noun_scores_ = dict(
             filter(
                 lambda x:((x[1][0] > min_noun_score) and
-                          (x[1][1] > min_feature_proportion) and
+                          (x[1][2] > min_feature_proportion) and
                           (len(x[0]) > 1)),
                        noun_scores.items()
             )
-- 
2.43.0


From 20bf75769044e301972bd3e8f6d413c4eedc8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 59/63] fix: scores of bigrams use frequencies of words, not
 numbers of bigrams

---
 soynlp/word/_phrase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 8d533ff..1ad1afc 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -74,7 +74,7 @@ class Bigram:
         self._unigram = {}
         for bigram, freq in self._counter.items():
             for unigram in bigram:
-                self._unigram[unigram] = self._unigram.get(unigram, 0) + 1
+                self._unigram[unigram] = self._unigram.get(unigram, 0) + freq
 
         if self.verbose:
             print('\r[Bigram Extractor] scanning {} unigrams, {} bigrams from {} sents'.format(
-- 
2.43.0


From d998a62ae38018eb8ea51a947d6ab92112fbfab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 60/63] fix: Bigram.extract returns the topk bigrams

---
 soynlp/word/_phrase.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 1ad1afc..8ac6775 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -102,6 +102,9 @@ class Bigram:
             if pmi >= threshold:
                 pmis[bigram] = pmi
 
+        if topk > 0:
+            pmis = dict(sorted(pmis.items(), key=lambda x:-x[1])[:topk])
+
         bigrams = {word:NgramScore(freq, pmis[word]) for word, freq
                    in self._counter.items() if word in pmis}
         return bigrams
@@ -109,7 +112,7 @@ class Bigram:
     def _extract_by_frequency(self, topk=-1, threshold=10):
         bigrams = filter(lambda x:x[1] >= threshold, self._counter.items())
         if topk > 0:
-            bigrams = sorted(bigrams, key=lambda x:-x[1])
+            bigrams = sorted(bigrams, key=lambda x:-x[1])[:topk]
         bigrams = {word:NgramScore(freq, freq) for word, freq in bigrams}
         return bigrams
 
@@ -126,6 +129,9 @@ class Bigram:
             if s >= threshold:
                 scores[bigram] = s
 
+        if topk > 0:
+            scores = dict(sorted(scores.items(), key=lambda x:-x[1])[:topk])
+
         bigrams = {word:NgramScore(freq, scores[word]) for word, freq
                    in self._counter.items() if word in scores}
         return bigrams
\ No newline at end of file
-- 
2.43.0


From 91c2c5c09e74b6fad957d3567294c2db16366776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:22 +0000
Subject: [PATCH 61/63] fix: BaseVectorizer.load keeps white space of terms

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 3824c5d..7ec50f6 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -169,7 +169,7 @@ class BaseVectorizer:
             fname += '.vocab'
         with all_or_nothing(self):
             with open(fname, encoding='utf-8') as f:
-                self.idx2vocab = [term.strip() for term in f]
+                self.idx2vocab = [term.rstrip('\n') for term in f]
             self.vocabulary_ = {term:idx for idx, term in enumerate(self.idx2vocab)}
             self.n_vocabs = len(self.idx2vocab)
 
-- 
2.43.0


From 5f49360c85fa66995a110454e1f255faab58532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:14 +0000
Subject: [PATCH 62/63] fix: eojeols of a corpus are separated by any white
 space in every pass

---
 soynlp/noun/_noun_ver1.py              | 2 +-
 soynlp/tokenizer/_tokenizer_builder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index 6dacad4..6df2053 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -95,7 +95,7 @@ class LRNounExtractor:
         for i, sent in enumerate(sents):
             if not self.ensure_normalized:
                 sent = normalize_sent_for_lrgraph(sent)
-            for token in sent.split(' '):
+            for token in sent.split():
                 if not token:
                     continue
                 token_len = len(token)
diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 9c05b98..e0470ac 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -42,7 +42,7 @@ class EojeolPatternTrainer:
         wordset_r = defaultdict(lambda: 0)
         
         for i_sent, sent in enumerate(sents):
-            for token in sent.split(' '):
+            for token in sent.split():
                 if not token:
                     continue
                 token_len = len(token)
-- 
2.43.0


From 57b2e058782d2718d2213154c8488f70524c4f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:07 +0000
Subject: [PATCH 63/63] fix: the second form of PMI keeps the pairs which just
 reach the threshold

---
 soynlp/word/_pmi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 22b9bb0..bdc874f 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -147,7 +147,7 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     min_exp_pmi = 1 if min_pmi == 0 else np.exp(min_pmi)
 
     # because exp_pmi is sparse matrix and type of exp_pmi.data is numpy.ndarray
-    indices = np.where(exp_pmi.data > min_exp_pmi)[0]
+    indices = np.where(exp_pmi.data >= min_exp_pmi)[0]
 
     pmi_dok = dok_matrix(exp_pmi.shape)
 
-- 
2.43.0

