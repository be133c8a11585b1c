From 00b61b004ff054854b7d59e71442f2553c3d7ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 01/26] fix: close and atomically publish partial vocabularies

The files were left to the garbage collector to be flushed, and a crash could
leave a truncated file that made every later vocabulary calculation fail.
---
 codeprep/fileutils.py      | 15 +++++++++++++++
 codeprep/pipeline/vocab.py | 16 ++++++++++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/codeprep/fileutils.py b/codeprep/fileutils.py
index 0be3133..9f74452 100644
--- a/codeprep/fileutils.py
+++ b/codeprep/fileutils.py
@@ -3,11 +3,26 @@
 # SPDX-License-Identifier: Apache-2.0
 
 import logging
+import os
+from contextlib import contextmanager
 
 from typing import List, Tuple
 
 logger = logging.getLogger(__name__)
 
+UNFINISHED_EXTENSION = '.tmp'
+
+
+@contextmanager
+def open_atomically(path: str, mode: str = 'w'):
+    """
+    Opens a file for writing, but lets it appear at `path` only when everything has been written successfully.
+    """
+    unfinished_path = path + UNFINISHED_EXTENSION
+    with open(unfinished_path, mode) as f:
+        yield f
+    os.replace(unfinished_path, path)
+
 
 def has_one_of_extensions(name: bytes, extensions: List[bytes]) -> bool:
     """
diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 0cdfa3d..feda639 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -20,7 +20,7 @@ import dill as pickle
 import time
 from tqdm import tqdm
 
-from codeprep.fileutils import read_file_contents
+from codeprep.fileutils import open_atomically, read_file_contents
 from codeprep.preprocess.placeholders import placeholders
 from codeprep.util import to_literal_str, to_non_literal_str, AtomicInteger, NonAtomicCounter, \
     merge_dicts_, groupify, create_chunk_generator
@@ -197,7 +197,8 @@ class VocabMerger(multiprocessing.Process):
 
         first.renew_id()
         path_to_new_file = os.path.join(self.path_to_dump, f'{first_id}_{second_id}_{first.id}.{PARTVOCAB_EXT}')
-        pickle.dump(first, open(path_to_new_file, 'wb'))
+        with open_atomically(path_to_new_file, 'wb') as f:
+            pickle.dump(first, f)
         finish_file_dumping(path_to_new_file)
 
         return first, new_words
@@ -219,14 +220,16 @@ def create_and_dump_partial_vocab(param: Tuple[List[str], str, int]) -> PartialV
     partial_vocab = PartialVocab(vocab, chunk)
     path = os.path.join(path_to_dump, f'{partial_vocab.id}.{PARTVOCAB_EXT}')
     logger.debug(f"Dumping part vocab to {path}")
-    pickle.dump(partial_vocab, open(path, 'wb'))
+    with open_atomically(path, 'wb') as f:
+        pickle.dump(partial_vocab, f)
     return partial_vocab
 
 
 def finish_file_dumping(path_to_new_file: str) -> None:
     try:
-        pickle.load(open(path_to_new_file, 'rb'))
-    except EOFError:
+        with open(path_to_new_file, 'rb') as f:
+            pickle.load(f)
+    except (EOFError, pickle.UnpicklingError):
         # file has not been written properly
         os.remove(path_to_new_file)
         return
@@ -292,7 +295,8 @@ def load_partial_vocabs(path: str) -> List[PartialVocab]:
     task_list = []
     for file in os.listdir(path):
         if file.endswith(PARTVOCAB_EXT):
-            part_vocab = pickle.load(open(os.path.join(path, file), 'rb'))
+            with open(os.path.join(path, file), 'rb') as f:
+                part_vocab = pickle.load(f)
             if not isinstance(part_vocab, PartialVocab):
                 raise TypeError(f"Object {str(part_vocab)} must be VocabMerger version {part_vocab.VERSION}")
             task_list.append(part_vocab)
-- 
2.43.0


From 6087f42f60c9b70d1b9d7629d33c4c06125b9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 02/26] fix: publish vocabulary files atomically, retract the
 ready marker before clean-up

A crash in the middle of writing left a truncated vocabulary that was taken for
a finished one; a crash during clean-up left an incomplete set of partial
vocabularies marked as complete.
---
 codeprep/pipeline/vocab.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index feda639..090af2b 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -78,7 +78,7 @@ class PartialVocab(object):
 
     def write_stats(self, path_to_stats_file: str) -> None:
         stats = self.__generate_stats()
-        with open(path_to_stats_file, 'w') as f:
+        with open_atomically(path_to_stats_file) as f:
             vocabsize = int(stats[-1][1][0])
             f.write(f'{vocabsize}\n')
             for percent, (v, n) in stats:
@@ -182,6 +182,8 @@ class VocabMerger(multiprocessing.Process):
 
         first.write_stats(self.vocav_size_file_path)
         first.write_vocab(self.vocab_file_path)
+        # without the marker, a half-deleted directory is not taken for a complete set of partial vocabs
+        os.remove(os.path.join(self.path_to_dump, PARTIAL_VOCABS_READY_FILENAME))
         shutil.rmtree(self.path_to_dump)
 
     def _log_merge_results(self, new_words: List[str], resulting_vocab_size: int, time: float) -> None:
@@ -324,7 +326,7 @@ def partial_vocabs_ready(path_to_dump: str) -> bool:
 
 
 def _dump_vocab_dict(lst: List[Tuple[str, int]], file: str, to_literal=True) -> None:
-    with open(file, 'w') as f:
+    with open_atomically(file) as f:
         for word, freq in lst:
             if to_literal:
                 word = to_literal_str(word)
-- 
2.43.0


From 604216b3e3bcca7f7d118dbe3e459c13a6ff3a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 03/26] fix: fail if a vocabulary merger fails, do not give up
 on slow ones

A merger that failed, or had to wait for more than 5 (300) seconds, died while
calc_vocab reported success without having written any vocabulary.
---
 codeprep/pipeline/vocab.py | 44 +++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 090af2b..ee9ca09 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -13,7 +13,6 @@ from collections import Counter, defaultdict
 from fnmatch import fnmatch
 from multiprocessing import Queue
 from multiprocessing.pool import Pool
-from queue import Empty
 from typing import List, Tuple, Dict, Iterator, Set
 
 import dill as pickle
@@ -36,8 +35,7 @@ VOCABSIZE_FILENAME = 'vocabsize'
 VOCAB_FILENAME = 'vocab'
 
 N_CHUNKS = 20
-BLOCKING_TIMEOUT_SECONDS_SHORT = 5
-BLOCKING_TIMEOUT_SECONDS_LONG = 300
+MERGERS_CHECK_INTERVAL_SECONDS = 1
 MAX_INIT_PARTIAL_VOCABS = 256 * 20
 
 
@@ -123,7 +121,7 @@ class VocabMerger(multiprocessing.Process):
 
     def run(self) -> None:
         while True:
-            chunk_assigned = self.chunk_queue.get(block=True, timeout=BLOCKING_TIMEOUT_SECONDS_SHORT)
+            chunk_assigned = self.chunk_queue.get()
             if chunk_assigned == -1:
                 if not self.process_counter.compare_and_dec(1):
                     logger.debug(
@@ -136,15 +134,9 @@ class VocabMerger(multiprocessing.Process):
                     logger.debug(f'[{self.id}] Vocab files are saved. Terminating the process...')
                     break
 
-            first = None
-            try:
-                first = self.tasks[chunk_assigned].get(block=True, timeout=BLOCKING_TIMEOUT_SECONDS_LONG)
-                second = self.tasks[chunk_assigned].get(block=True, timeout=BLOCKING_TIMEOUT_SECONDS_LONG)
-            except Empty:
-                logger.debug(f"[{self.id}] Could not get a task from queue. Terminating")
-                if first:
-                    self.tasks[chunk_assigned].put_nowait(first)
-                return
+            # there is always one vocab more in a chunk than merges left to be done, so these calls cannot block forever
+            first = self.tasks[chunk_assigned].get()
+            second = self.tasks[chunk_assigned].get()
 
             start = time.time()
 
@@ -164,8 +156,7 @@ class VocabMerger(multiprocessing.Process):
 
     def _finish_merges(self) -> None:
         logger.info("===============     Finishing merges    ===============")
-        list_from_chunks = [queue.get(block=True, timeout=BLOCKING_TIMEOUT_SECONDS_SHORT) for queue in
-                            self.tasks.values()]
+        list_from_chunks = [queue.get() for queue in self.tasks.values()]
 
         percents_in_one_chunk = 100 // len(list_from_chunks)
 
@@ -354,6 +345,26 @@ def _load_vocab_set(file: str) -> Set[str]:
     return non_bpe_tokens
 
 
+def wait_for_mergers(mergers: List[VocabMerger]) -> None:
+    """
+    Mergers wait for each other's results, so if one of them fails, the others have to be stopped
+    """
+    try:
+        running = mergers
+        while running:
+            running[0].join(timeout=MERGERS_CHECK_INTERVAL_SECONDS)
+            running = [m for m in mergers if m.exitcode is None]
+            failed = [m for m in mergers if m.exitcode]
+            if failed:
+                raise RuntimeError(f"Vocabulary could not be calculated: merger {failed[0].id} "
+                                   f"finished with exit code {failed[0].exitcode}")
+    finally:
+        for merger in mergers:
+            if merger.exitcode is None:
+                merger.terminate()
+                merger.join()
+
+
 def calc_vocab(path: str, file_iterator: Iterator[bytes], output_dir: str):
     if platform.system() == 'Darwin':
         logger.info("Parallel calculation of vocabulary is not supported on OSX. Using single core")
@@ -391,8 +402,7 @@ def calc_vocab(path: str, file_iterator: Iterator[bytes], output_dir: str):
     for merger in mergers:
         merger.start()
 
-    for merger in mergers:
-        merger.join()
+    wait_for_mergers(mergers)
 
     logger.info(f"Vocab is available at {vocab_file_path}")
     logger.info(f"Vocab stats is available at {vocab_size_file_path}")
\ No newline at end of file
-- 
2.43.0


From 0436c624b84713eb6b094675a31807c17ea8b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 04/26] fix: preprocess the corpus even if its vocabulary
 already exists

With calc_vocab, an existing vocabulary file made a run succeed without
(re)building missing, modified or differently located output.
---
 codeprep/pipeline/stages.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/codeprep/pipeline/stages.py b/codeprep/pipeline/stages.py
index eb13220..23d933d 100644
--- a/codeprep/pipeline/stages.py
+++ b/codeprep/pipeline/stages.py
@@ -5,7 +5,6 @@
 """This module runs different stages of preprocessing flow and makes sure not to rerun a stage if its results are already available.
 """
 import logging
-import os
 from typing import Optional
 
 from codeprep.pipeline import parse_projects, to_repr
@@ -52,19 +51,6 @@ def run_until_base_bpe_vocab(dataset: Dataset, custom_bpe_config: Optional[Custo
 
 
 def run_until_vocab(dataset: Dataset, custom_bpe_config: Optional[CustomBpeConfig]=None) -> None:
-    logger.info(f'Checking first if vocabulary file exists: {dataset.path_to_vocab_file}')
-    if os.path.exists(dataset.path_to_vocab_file):
-        logger.info("Vocabulary is already computed and up-to-date")
-        return
-
-    if not is_path_ready(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
-        logger.info("Computing vocab...")
-        calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
-    elif is_path_outdated(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
-        logger.info("Computing vocab...")
-        archive_path(dataset.path_to_bpe_vocab_file)
-        calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
-    else:
-        raise AssertionError()
\ No newline at end of file
+    run_until_preprocessing(dataset, custom_bpe_config)
+    logger.info("Computing vocab...")
+    calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
-- 
2.43.0


From 533e07d9ae3ecfa74f2635815ed0bbfb68abafd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 05/26] fix: leave out source files that disappear during a run

The missing parse result made the next stage fail and left an unfinished file
in the output.
---
 codeprep/pipeline/parse_projects.py | 13 +++++++------
 codeprep/pipeline/to_repr.py        | 10 ++++++++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/codeprep/pipeline/parse_projects.py b/codeprep/pipeline/parse_projects.py
index 344bba6..c89e117 100644
--- a/codeprep/pipeline/parse_projects.py
+++ b/codeprep/pipeline/parse_projects.py
@@ -30,14 +30,15 @@ def preprocess_and_write(params: Tuple[bytes, bytes]) -> None:
         logger.warning(f"File {dest_file_path} already exists! Doing nothing.")
         return
 
+    try:
+        lines_from_file, path = read_file_contents(src_file_path)
+    except FileNotFoundError:
+        logger.error(f"File was found when scanning the directory, but cannot be read: {src_file_path}. "
+                     f"Invalid symlink? Ignoring ...")
+        return
+
     not_finished_dest_file_path = dest_file_path + NOT_FINISHED_EXTENSION.encode()
     with gzip.GzipFile(not_finished_dest_file_path, 'wb') as f:
-        try:
-            lines_from_file, path = read_file_contents(src_file_path)
-        except FileNotFoundError:
-            logger.error(f"File was found when scanning the directory, but cannot be read: {src_file_path}. "
-                         f"Invalid symlink? Ignoring ...")
-            return
         extension_bin = os.path.splitext(src_file_path)[1].decode()[1:]
         parsed = [p for p in convert_text("\n".join(lines_from_file), extension_bin)]
         pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)
diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 24de466..45bbcda 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -68,9 +68,15 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
         logger.warning(f"File {dest_file_path} already exists! Doing nothing.")
         return
 
+    try:
+        with gzip.GzipFile(src_file_path, 'rb') as i:
+            token_list = pickle.load(i)
+    except FileNotFoundError:
+        logger.error(f"Parsed file not found: {src_file_path}. The source file could not be read? Ignoring ...")
+        return
+
     not_finished_dest_file_path = dest_file_path + NOT_FINISHED_EXTENSION.encode()
-    with gzip.GzipFile(src_file_path, 'rb') as i, open(not_finished_dest_file_path, 'w') as o:
-        token_list = pickle.load(i)
+    with open(not_finished_dest_file_path, 'w') as o:
         bpe_data = get_global_bpe_data_if_available() if bpe_data is None else bpe_data
         repr, metadata = to_repr(prep_config, token_list + [SpecialToken(placeholders['ect'])], bpe_data)
         o.write(to_literal_str(to_token_str(repr)) + '\n')
-- 
2.43.0


From 11a429df8a9fbac41aab5e976db9a06907e696f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 06/26] fix: notice files added to or removed from the top
 level of a directory

Only the times of the entries were looked at, so deleting a file from the
corpus or the output, or moving an older file in, went unnoticed.
---
 codeprep/dirutils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index c4792e9..a6a7ac7 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -56,9 +56,8 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
 
     def walk_path(path):
         counter = 0
-        if os.path.isfile(path) or len(os.listdir(path)) == 0:
-            yield os.path.getmtime(path)
-        else:
+        yield os.path.getmtime(path)
+        if not os.path.isfile(path):
             for root, dirs, files in os.walk(path):
                 for dir in dirs:
                     if counter >= limit:
-- 
2.43.0


From d5f7c3a13802cd7cbfe28b6710c8c92267ed31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 07/26] fix: do not silently leave out directories that cannot
 be listed

---
 codeprep/dirutils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index a6a7ac7..1a90722 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -14,11 +14,19 @@ from codeprep.fileutils import has_one_of_extensions
 logger = logging.getLogger(__name__)
 
 
+def raise_unless_disappeared(error: OSError) -> None:
+    """
+    By default os.walk() silently leaves out the directories that cannot be listed
+    """
+    if not isinstance(error, FileNotFoundError):
+        raise error
+
+
 def walk(path:bytes, extension: Optional[bytes] = None) -> Generator[bytes, None, None]:
     if os.path.isfile(path) and (not extension or path.endswith(extension)):
         yield path
     else:
-        for root, dirs, files in os.walk(path):
+        for root, dirs, files in os.walk(path, onerror=raise_unless_disappeared):
             for file in files:
                 if not extension or file.endswith(extension):
                     yield os.path.join(root, file)
@@ -36,7 +44,7 @@ def walk_and_save(path: str, dir_list_path: str, file_list_path: str, return_dir
             if not return_dirs_instead_of_regular_files:
                 yield res
         else:
-            for root, dirs, files in os.walk(path_bin, followlinks=True):
+            for root, dirs, files in os.walk(path_bin, onerror=raise_unless_disappeared, followlinks=True):
                 # we pass bytes to os.walk -> the output are bytes as well
                 for dir in dirs:
                     bin_name = os.path.join(os.path.relpath(root, path_bin), dir)
@@ -58,7 +66,7 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
         counter = 0
         yield os.path.getmtime(path)
         if not os.path.isfile(path):
-            for root, dirs, files in os.walk(path):
+            for root, dirs, files in os.walk(path, onerror=raise_unless_disappeared):
                 for dir in dirs:
                     if counter >= limit:
                         return
-- 
2.43.0


From 6531cd002d215350761dbc9e6f1b68649ec0a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 08/26] fix: archive outdated output under a unique name and
 across file systems

os.rename() failed if the cache directory was on another file system or if
something had been archived under the same name before, and a run over a corpus
without any selected file failed after archiving.
---
 codeprep/pipeline/dataset.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 59f8c7e..1058ef4 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -5,6 +5,8 @@
 import ast
 import logging
 import os
+import shutil
+import tempfile
 from typing import Type, Optional, Generator, List
 
 from codeprep.bpepkg.bpe_config import BpeConfig
@@ -73,6 +75,7 @@ class SubDataset(object):
 
     def archive(self) -> None:
         archive_path(self.path)
+        os.makedirs(self.path, exist_ok=True)
 
     def __eq__(self, o: object) -> bool:
         if isinstance(o, SubDataset):
@@ -318,10 +321,13 @@ def is_path_ready(path: str) -> bool:
 def archive_path(path: str) -> None:
     modif_file = _get_last_modif_file_path_for_dir(path)
     timestamp = get_timestamp(path)
-    if not os.path.exists(DEFAULT_PREP_DATASETS_DIR):
-        os.makedirs(DEFAULT_PREP_DATASETS_DIR)
-    os.rename(path, os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(path)}.{ARCHIVED_EXT}.{timestamp}'))
-    os.rename(modif_file, os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(modif_file)}.{ARCHIVED_EXT}.{timestamp}'))
+    os.makedirs(DEFAULT_PREP_DATASETS_DIR, exist_ok=True)
+    # equally named paths may have been archived before
+    archive_dir = tempfile.mkdtemp(prefix=f'{os.path.basename(path)}.{ARCHIVED_EXT}.{timestamp}.',
+                                   dir=DEFAULT_PREP_DATASETS_DIR)
+    # as opposed to os.rename(), shutil.move() works across file systems
+    shutil.move(path, os.path.join(archive_dir, os.path.basename(path)))
+    shutil.move(modif_file, os.path.join(archive_dir, os.path.basename(modif_file)))
 
 
 def normalize_extension_string(extensions: Optional[str]) -> Optional[List[str]]:
-- 
2.43.0


From dda7ba1d481dcca7cf6844abd389a0cb0280330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 09/26] fix: do not mix up the metadata of equally named files

Files with the same base name processed at the same time overwrote each other's
list of non-splittable tokens, and interrupted runs left truncated lists behind
that were collected later on.
---
 codeprep/pipeline/to_repr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 45bbcda..4b4d213 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -7,11 +7,11 @@ import logging
 import os
 import pickle
 import platform
+from hashlib import sha1
 from multiprocessing.pool import Pool
 from typing import List, Tuple
 from typing import Optional
 
-import time
 from tqdm import tqdm
 
 from codeprep.bpepkg.bpe_encode import read_merges, BpeData
@@ -82,7 +82,8 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
         o.write(to_literal_str(to_token_str(repr)) + '\n')
 
     if part_nonbpe_vocab_folder:
-        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}'))
+        # files in different dirs can have the same name and be processed at the same time
+        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, sha1(dest_file_path).hexdigest()))
 
     os.rename(not_finished_dest_file_path, dest_file_path)
 
-- 
2.43.0


From a05db63a332e66f486643ad61fdfef63c2191226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 10/26] fix: publish the list of non-splittable tokens
 atomically

---
 codeprep/pipeline/vocabloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/vocabloader.py b/codeprep/pipeline/vocabloader.py
index ac8306b..07a1317 100644
--- a/codeprep/pipeline/vocabloader.py
+++ b/codeprep/pipeline/vocabloader.py
@@ -7,6 +7,7 @@ import os
 import shutil
 from typing import Set, Dict
 
+from codeprep.fileutils import open_atomically
 from codeprep.pipeline.bperegistry import get_bpe_dir, get_base_vocab_dir, RESULTING_VOCAB_FILE_NAME
 from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME
 from codeprep.preprocess.placeholders import placeholders
@@ -49,7 +50,7 @@ def gather_non_bpe_vocab(dataset: Dataset):
         non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))
 
     non_bpe_tokens.update(list(placeholders.values()))
-    with open(dataset.path_to_nonbpe_vocab_file, 'w') as f:
+    with open_atomically(dataset.path_to_nonbpe_vocab_file) as f:
         for token in non_bpe_tokens:
             f.write(f'{to_literal_str(token)}\n')
     shutil.rmtree(part_nonbpe_vocab_dir)
\ No newline at end of file
-- 
2.43.0


From fb68c21742f42e511a29fc81ccbdd0f00084193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 11/26] fix: publish learned BPE codes atomically

After a crash while saving, the incomplete directory was taken for learned
codes: 'Merges already learned!'
---
 codeprep/pipeline/bpelearner.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/codeprep/pipeline/bpelearner.py b/codeprep/pipeline/bpelearner.py
index b819945..471c812 100644
--- a/codeprep/pipeline/bpelearner.py
+++ b/codeprep/pipeline/bpelearner.py
@@ -14,7 +14,7 @@ from codeprep.bpepkg.merge import MergeList, read_merges, dump_merges
 from codeprep.pipeline import stages
 from codeprep.pipeline.bperegistry import get_max_merges, MERGES_FILE_NAME, MERGES_CACHE_FILE_NAME, \
     RESULTING_VOCAB_FILE_NAME, BPE_REASSEMBLED_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset
+from codeprep.pipeline.dataset import Dataset, NOT_FINISHED_EXTENSION
 from codeprep.pipeline.vocab import _dump_vocab_dict, _load_vocab_dict
 from codeprep.util import to_non_literal_str
 
@@ -69,18 +69,20 @@ def get_dir_with_most_merges(dataset_bpe_path, n_merges) -> Optional[str]:
 
 
 def save_results(split_base_vocab, merges, new_bpe_dir):
-
-    os.makedirs(new_bpe_dir)
+    # until everything has been written, the dir must not be taken for a dir with learned merges
+    unfinished_bpe_dir = new_bpe_dir + NOT_FINISHED_EXTENSION
+    os.makedirs(unfinished_bpe_dir, exist_ok=True)
 
     resulting_vocab = create_resulting_vocab(split_base_vocab)
     resulting_vocab_sorted = sorted(resulting_vocab.items(), key=lambda x: x[1], reverse=True)
-    _dump_vocab_dict(resulting_vocab_sorted, os.path.join(new_bpe_dir, RESULTING_VOCAB_FILE_NAME))
+    _dump_vocab_dict(resulting_vocab_sorted, os.path.join(unfinished_bpe_dir, RESULTING_VOCAB_FILE_NAME))
 
     bpe_cache = create_bpe_cache(split_base_vocab)
-    dump_bpe_cache(bpe_cache, os.path.join(new_bpe_dir, MERGES_CACHE_FILE_NAME))
+    dump_bpe_cache(bpe_cache, os.path.join(unfinished_bpe_dir, MERGES_CACHE_FILE_NAME))
 
-    dump_merges(merges, os.path.join(new_bpe_dir, MERGES_FILE_NAME))
-    _dump_vocab_dict(split_base_vocab.items(), os.path.join(new_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
+    dump_merges(merges, os.path.join(unfinished_bpe_dir, MERGES_FILE_NAME))
+    _dump_vocab_dict(split_base_vocab.items(), os.path.join(unfinished_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
+    os.rename(unfinished_bpe_dir, new_bpe_dir)
     logger.info(f'Bpe output files are saved into {new_bpe_dir} folder')
 
 
-- 
2.43.0


From f97bafd345f5e862f32d9fd4e1bb30a6a2c26034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 12/26] fix: make the order of the vocabulary independent of
 the order of merges

Merges learned from it depended on how the merger processes were scheduled.
---
 codeprep/pipeline/vocab.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index ee9ca09..5fd8af4 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -93,7 +93,8 @@ class PartialVocab(object):
         self.merged_word_counts = {k: v for (k, v) in sorted_vocab[:adjusted_threshold + 1]}
 
     def write_vocab(self, path_to_vocab_file: str) -> None:
-        sorted_vocab = sorted(self.merged_word_counts.items(), key=lambda x: x[1], reverse=True)
+        # words with equal frequencies are ordered as well, so that the result does not depend on the order of merges
+        sorted_vocab = sorted(self.merged_word_counts.items(), key=lambda x: (-x[1], x[0]))
         _dump_vocab_dict(sorted_vocab, path_to_vocab_file, to_literal=False)
 
     def __generate_stats(self):
-- 
2.43.0


From ec5b11921731ac12ed777b9a20b8ba572f8f8677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 13/26] fix: do not assign a BPE codes id twice

Ids of interrupted trainings were not taken into account, and corpus names with
regex metacharacters broke the numbering.
---
 codeprep/pipeline/bperegistry.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index a9503ad..e8c33ea 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -4,7 +4,7 @@
 
 import logging
 import os
-from typing import Optional, Dict, Callable, Tuple, List
+from typing import Optional, Dict, Callable, Tuple, List, Set
 
 import regex
 import sys
@@ -14,6 +14,7 @@ from codeprep.bpepkg.bpe_config import BpeConfig
 from codeprep.bpepkg.bpe_encode import read_merges
 from codeprep.bpepkg.merge import MergeList
 from codeprep.config import USER_BPE_DIR, USER_VOCAB_DIR
+from codeprep.fileutils import open_atomically
 
 logger = logging.getLogger(__name__)
 
@@ -106,12 +107,12 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
         if id_suffix:
             name_parts.append(id_suffix)
         id_base = '_'.join(name_parts)
-        existing_ids = _get_all_custom_bpe_codes_and_max_merges().keys()
+        existing_ids = _get_all_custom_bpe_codes_and_max_merges().keys() | _get_assigned_bpe_codes_ids()
         if id_base not in existing_ids:
             return id_base
         else:
             def extract_number(full_id: str, id_base: str) -> int:
-                m = regex.fullmatch(f"{id_base}_([0-9]+)", full_id)
+                m = regex.fullmatch(f"{regex.escape(id_base)}_([0-9]+)", full_id)
                 return int(m[1]) if m else 0
 
             numbers = list(map(lambda d: extract_number(d, id_base), existing_ids))
@@ -121,7 +122,7 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
 
 def write_bpe_codes_id(dataset_bpe_dir: str, bpe_codes_id: str) -> None:
     file_with_id = os.path.join(dataset_bpe_dir, BPE_CODES_ID_FILENAME)
-    with open(file_with_id, 'w') as f:
+    with open_atomically(file_with_id) as f:
         f.write(bpe_codes_id)
 
 
@@ -232,6 +233,16 @@ def _get_all_custom_bpe_codes_and_max_merges() -> Dict[str, int]:
     return result
 
 
+def _get_assigned_bpe_codes_ids() -> Set[str]:
+    """
+    As opposed to _get_all_custom_bpe_codes_and_max_merges(), this includes ids for which no merges have been learned yet
+    """
+    if not os.path.exists(USER_BPE_DIR):
+        return set()
+    bpe_dirs = next(os.walk(USER_BPE_DIR))[1]
+    return {get_codes_id_by_bpe_path(os.path.join(USER_BPE_DIR, bpe_dir)) for bpe_dir in bpe_dirs} - {None}
+
+
 def _get_all_bpe_merges_dirs(dataset_bpe_dir: str) -> List[str]:
     if not os.path.exists(dataset_bpe_dir):
         raise FileNotFoundError(f'Directory {dataset_bpe_dir} does not exist!')
-- 
2.43.0


From c3a73ebac34e3880715b4842baca6f6827b6fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 14/26] fix: do not take a half-written corpus size for the
 corpus size

---
 codeprep/api/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/api/corpus.py b/codeprep/api/corpus.py
index b583a36..b72097f 100644
--- a/codeprep/api/corpus.py
+++ b/codeprep/api/corpus.py
@@ -14,6 +14,7 @@ from tqdm import tqdm
 from codeprep.api.common import create_prep_config
 from codeprep.config import CHUNKSIZE
 from codeprep.config import test_data_dir
+from codeprep.fileutils import open_atomically
 from codeprep.pipeline import stages
 from codeprep.pipeline.bperegistry import CustomBpeConfig, is_predefined_id
 from codeprep.pipeline.dataset import Dataset, SubDataset
@@ -48,7 +49,7 @@ class PreprocessedCorpus(object):
     def get_corpus_size(self) -> int:
         if not os.path.exists(self._path_to_corpus_size_file):
             corpus_size = self._calc_corpus_size()
-            with open(self._path_to_corpus_size_file, 'w') as f:
+            with open_atomically(self._path_to_corpus_size_file) as f:
                 f.write(f'{corpus_size}')
         with open(self._path_to_corpus_size_file, 'r') as f:
             return int(f.read())
-- 
2.43.0


From 598ee3483b4fd565ffd0dcf293c2eb9bd69078df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 15/26] fix: do not use partially loaded BPE data after loading
 has failed

---
 codeprep/pipeline/to_repr.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 4b4d213..1ac845d 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -92,19 +92,20 @@ def init_bpe_data(prep_config: PrepConfig, custom_bpe_config: Optional[CustomBpe
     if get_global_bpe_data_if_available() and not force_reinit:
         return # already initialized
     global global_bpe_data
-    global_bpe_data = BpeData()
+    global_bpe_data = None # if loading fails, neither incomplete nor previous data must be used later on
+    bpe_data = BpeData()
     if custom_bpe_config:
         logger.info(f'Using bpe merges file: {custom_bpe_config.codes_file}')
         if custom_bpe_config.can_use_cache_file():
-            global_bpe_data.merges_cache = read_bpe_cache(custom_bpe_config.cache_file)
+            bpe_data.merges_cache = read_bpe_cache(custom_bpe_config.cache_file)
         else:
-            global_bpe_data.merges_cache = {}
-        global_bpe_data.merges = read_merges(custom_bpe_config.codes_file, custom_bpe_config.n_merges)
+            bpe_data.merges_cache = {}
+        bpe_data.merges = read_merges(custom_bpe_config.codes_file, custom_bpe_config.n_merges)
 
         if custom_bpe_config.n_merges:
             logger.info(f'Using first {custom_bpe_config.n_merges} merges.')
         nonbpe_vocab = vocabloader.nonbpe(custom_bpe_config.merge_list_id)
-        global_bpe_data.merges_cache.update({s: [s] for s in nonbpe_vocab})
+        bpe_data.merges_cache.update({s: [s] for s in nonbpe_vocab})
     else:
         bpe_n_merges_dict = {'4': '5k', '5': '1k', '6': '10k', '7': '20k', '8': '0'}
         bpe_n_merges = bpe_n_merges_dict[prep_config.get_param_value(PrepParam.SPLIT)]
@@ -116,10 +117,12 @@ def init_bpe_data(prep_config: PrepConfig, custom_bpe_config: Optional[CustomBpe
                                              CASE_DIR if prep_config.get_param_value(PrepParam.CASE) == 'u' else NO_CASE_DIR,
                                              str(bpe_n_merges), 'merges_cache.txt')
         if os.path.exists(bpe_merges_cache_file):
-            global_bpe_data.merges_cache = read_bpe_cache(bpe_merges_cache_file)
+            bpe_data.merges_cache = read_bpe_cache(bpe_merges_cache_file)
         else:
-            global_bpe_data.merges_cache = {}
-        global_bpe_data.merges = read_merges(bpe_merges_file)
+            bpe_data.merges_cache = {}
+        bpe_data.merges = read_merges(bpe_merges_file)
+
+    global_bpe_data = bpe_data
 
 
 def params_generator(dataset: Dataset, path_to_part_metadata: Optional[str]):
-- 
2.43.0


From f460c6aaa47196d1e781dd95cec38b41ac22f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 16/26] fix: do not fail on file extensions that are not valid
 UTF-8

---
 codeprep/pipeline/parse_projects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/parse_projects.py b/codeprep/pipeline/parse_projects.py
index c89e117..3c9ba81 100644
--- a/codeprep/pipeline/parse_projects.py
+++ b/codeprep/pipeline/parse_projects.py
@@ -39,7 +39,7 @@ def preprocess_and_write(params: Tuple[bytes, bytes]) -> None:
 
     not_finished_dest_file_path = dest_file_path + NOT_FINISHED_EXTENSION.encode()
     with gzip.GzipFile(not_finished_dest_file_path, 'wb') as f:
-        extension_bin = os.path.splitext(src_file_path)[1].decode()[1:]
+        extension_bin = os.path.splitext(src_file_path)[1].decode(errors='replace')[1:]
         parsed = [p for p in convert_text("\n".join(lines_from_file), extension_bin)]
         pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From a37306d155e59415c6011d5b665eb864bfc925e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 17/26] fix: let several commands create the cache directories
 at the same time

---
 codeprep/pipeline/dataset.py | 12 ++++++------
 codeprep/pipeline/to_repr.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 1058ef4..ca0d8bb 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -139,19 +139,19 @@ class Dataset(object):
         dataset = cls(path_to_dataset, prep_config, normalized_extension_list, custom_bpe_config, bpe_config, overriden_path_to_prep_dataset, suppress_caching=suppress_caching)
 
         if not os.path.exists(dataset.parsed.path):
-            os.makedirs(dataset.parsed.path)
+            os.makedirs(dataset.parsed.path, exist_ok=True)
 
         if not os.path.exists(dataset.preprocessed.path):
-            os.makedirs(dataset.preprocessed.path)
+            os.makedirs(dataset.preprocessed.path, exist_ok=True)
 
         if not os.path.exists(DEFAULT_FILE_LIST_DIR):
-            os.makedirs(DEFAULT_FILE_LIST_DIR)
+            os.makedirs(DEFAULT_FILE_LIST_DIR, exist_ok=True)
 
         if not os.path.exists(DEFAULT_CORPUS_SIZES_DIR):
-            os.makedirs(DEFAULT_CORPUS_SIZES_DIR)
+            os.makedirs(DEFAULT_CORPUS_SIZES_DIR, exist_ok=True)
 
         if not os.path.exists(dataset.bpe_path):
-            os.makedirs(dataset.bpe_path)
+            os.makedirs(dataset.bpe_path, exist_ok=True)
 
         return dataset
 
@@ -264,7 +264,7 @@ class Dataset(object):
     def get_all_files(self, return_dirs_instead_of_regular_files: bool=False) -> Generator[bytes, None, None]:
         if self.files_need_to_be_saved():
             if not os.path.exists(self.path_to_file_list_folder):
-                os.makedirs(self.path_to_file_list_folder)
+                os.makedirs(self.path_to_file_list_folder, exist_ok=True)
             for filepath in walk_and_save(self.original.path,
                                           os.path.join(self.path_to_file_list_folder, DIR_LIST_FILENAME),
                                           os.path.join(self.path_to_file_list_folder, FILE_LIST_FILENAME),
diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 1ac845d..2328147 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -154,7 +154,7 @@ def run(dataset: Dataset, custom_bpe_config: Optional[CustomBpeConfig]) -> None:
     else:
         path_to_part_metadata = None
     if path_to_part_metadata and not os.path.exists(path_to_part_metadata):
-        os.makedirs(path_to_part_metadata)
+        os.makedirs(path_to_part_metadata, exist_ok=True)
 
     logger.info(f"Writing preprocessed files to {dataset.preprocessed.path}")
 
-- 
2.43.0


From 54d79c576b57ecd0be2f636b03f354a4711fde35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 18/26] fix: write the marker of a finished stage atomically

A half-written marker made the results of the stage be thrown away.
---
 codeprep/pipeline/dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index ca0d8bb..fac8006 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -13,6 +13,7 @@ from codeprep.bpepkg.bpe_config import BpeConfig
 from codeprep.config import DEFAULT_PARSED_DATASETS_DIR, DEFAULT_PREP_DATASETS_DIR, USER_BPE_DIR, DEFAULT_FILE_LIST_DIR, \
     USER_VOCAB_DIR, DEFAULT_CORPUS_SIZES_DIR
 from codeprep.dirutils import walk_and_save, get_timestamp
+from codeprep.fileutils import open_atomically
 from codeprep.pipeline.bperegistry import get_codes_id_by_bpe_path, create_new_id_from, write_bpe_codes_id, \
     CustomBpeConfig
 from codeprep.pipeline.vocab import VOCAB_FILENAME
@@ -297,8 +298,9 @@ def _get_last_modif_file_path_for_dir(path: str) -> str:
 
 def set_path_ready(path: str) -> None:
     modif_file = _get_last_modif_file_path_for_dir(path)
-    with open(modif_file, 'w') as f:
-        f.write(get_timestamp(path))
+    timestamp = get_timestamp(path)
+    with open_atomically(modif_file) as f:
+        f.write(timestamp)
 
 
 def is_path_outdated(path: str) -> bool:
-- 
2.43.0


From f648e4c0ea52cd912a27a81b87cc7d27c64d2d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 19/26] fix: find the base vocabulary of a corpus with the
 delimiter '_-_' in its name

---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index e8c33ea..7f1dc5f 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -155,7 +155,7 @@ def get_base_vocab_dir(bpe_list_id: str) -> str:
     dataset_bpe_dir = get_dataset_bpe_dir(bpe_list_id)
     prep_config_str = os.path.basename(dataset_bpe_dir)
     #TODO do not hard code date and dir format in general
-    m = regex.fullmatch(r'(.*?)((?:_-_.*)?)', prep_config_str)
+    m = regex.fullmatch(r'(.*?)((?:_-_[a-z_]*)?)', prep_config_str)
     if not m:
         raise ValueError(f'Invalid dir format: {prep_config_str}')
     bpe_config = BpeConfig.from_suffix(m[2])
-- 
2.43.0


From c42544aa2df6734a41ac0ce091b523003a6d4e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 20/26] fix: do not mix up extension lists like 'a|b_c' and
 'a_b|c'

---
 codeprep/pipeline/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index fac8006..b79cc6a 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -178,7 +178,8 @@ class Dataset(object):
     def get_dataset_dir_name(self) -> str:
         name = f'{self.name}_{self.dataset_last_modified}'
         if self._normalized_extension_list:
-            name += ('_' + "_".join(self._normalized_extension_list))
+            # '_' is escaped so that e.g. 'a|b_c' and 'a_b|c' do not end up in the same directory
+            name += ('_' + "_".join(e.replace('%', '%25').replace('_', '%5F') for e in self._normalized_extension_list))
         return name
 
     @property
-- 
2.43.0


From 312d73c09f436969c1f9de12040af627900d9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 21/26] fix: do not hang at exit after a vocabulary merger has
 failed

---
 codeprep/pipeline/vocab.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 5fd8af4..3cd18e9 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -121,6 +121,15 @@ class VocabMerger(multiprocessing.Process):
         self.vocav_size_file_path = vocab_size_file_path
 
     def run(self) -> None:
+        try:
+            self._merge_chunks()
+        except BaseException:
+            # the vocabs might never be read by the other mergers, so do not wait for that before failing
+            for queue in self.tasks.values():
+                queue.cancel_join_thread()
+            raise
+
+    def _merge_chunks(self) -> None:
         while True:
             chunk_assigned = self.chunk_queue.get()
             if chunk_assigned == -1:
@@ -248,6 +257,8 @@ def finish_file_dumping(path_to_new_file: str) -> None:
 
 def list_to_queue(lst: List) -> Queue:
     queue = Queue()
+    # if the mergers fail, nobody is going to read the elements, so this process must not wait for that when it exits
+    queue.cancel_join_thread()
     for elm in lst:
         queue.put_nowait(elm)
     return queue
-- 
2.43.0


From d20df23a9d62133fa849393644f0717bddab0a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:53 +0000
Subject: [PATCH 22/26] fix: derive time stamps from UTC: local time repeats
 itself at the end of summer time

---
 codeprep/dirutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index 1a90722..9d8eb01 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -81,7 +81,8 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
                         yield os.path.getmtime(full_path)
 
     mtime = max(walk_path(path))
-    return datetime.fromtimestamp(mtime)
+    # local time would repeat itself at the end of summer time, and depend on where the user is
+    return datetime.utcfromtimestamp(mtime)
 
 
 def get_timestamp(path: str) -> str:
-- 
2.43.0


From 733dde2d771af356c6d7d807be72bbad2116753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 23/26] fix: a file that disappears while the corpus is looked
 through must not make the run fail

---
 codeprep/dirutils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index 9d8eb01..7ead58f 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -60,6 +60,13 @@ def walk_and_save(path: str, dir_list_path: str, file_list_path: str, return_dir
                                 yield bin_name
 
 
+def mtime_unless_disappeared(path: str) -> Generator[float, None, None]:
+    try:
+        yield os.path.getmtime(path)
+    except FileNotFoundError:
+        logger.warning(f"{path} has disappeared. Ignoring ...")
+
+
 def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFICATION_CHECK) -> datetime:
 
     def walk_path(path):
@@ -71,14 +78,14 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
                     if counter >= limit:
                         return
                     counter += 1
-                    yield os.path.getmtime(os.path.join(root, dir))
+                    yield from mtime_unless_disappeared(os.path.join(root, dir))
                 for file in files:
                     if counter >= limit:
                         return
                     full_path = os.path.join(root, file)
                     if not os.path.islink(full_path):
                         counter += 1
-                        yield os.path.getmtime(full_path)
+                        yield from mtime_unless_disappeared(full_path)
 
     mtime = max(walk_path(path))
     # local time would repeat itself at the end of summer time, and depend on where the user is
-- 
2.43.0


From 2276d1c6ed33b7331a70c0a82920aaf3d2b6d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:47 +0000
Subject: [PATCH 24/26] fix: changes in directories that the corpus links to
 must be noticed

---
 codeprep/dirutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index 7ead58f..b9079e3 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -73,7 +73,8 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
         counter = 0
         yield os.path.getmtime(path)
         if not os.path.isfile(path):
-            for root, dirs, files in os.walk(path, onerror=raise_unless_disappeared):
+            # links to dirs are followed, as in walk_and_save()
+            for root, dirs, files in os.walk(path, onerror=raise_unless_disappeared, followlinks=True):
                 for dir in dirs:
                     if counter >= limit:
                         return
-- 
2.43.0


From 5f6068a00799e6056d5da099588de27a4e505cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:18 +0000
Subject: [PATCH 25/26] fix: stop the mergers already started if another one
 cannot be started

---
 codeprep/pipeline/vocab.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 3cd18e9..5054471 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -357,11 +357,13 @@ def _load_vocab_set(file: str) -> Set[str]:
     return non_bpe_tokens
 
 
-def wait_for_mergers(mergers: List[VocabMerger]) -> None:
+def run_mergers(mergers: List[VocabMerger]) -> None:
     """
-    Mergers wait for each other's results, so if one of them fails, the others have to be stopped
+    Mergers wait for each other's results, so if one of them fails (or cannot be started), the others have to be stopped
     """
     try:
+        for merger in mergers:
+            merger.start()
         running = mergers
         while running:
             running[0].join(timeout=MERGERS_CHECK_INTERVAL_SECONDS)
@@ -372,7 +374,7 @@ def wait_for_mergers(mergers: List[VocabMerger]) -> None:
                                    f"finished with exit code {failed[0].exitcode}")
     finally:
         for merger in mergers:
-            if merger.exitcode is None:
+            if merger.is_alive():
                 merger.terminate()
                 merger.join()
 
@@ -411,10 +413,7 @@ def calc_vocab(path: str, file_iterator: Iterator[bytes], output_dir: str):
                            vocab_file_path=vocab_file_path,
                            vocab_size_file_path=vocab_size_file_path)
                for i in range(n_processes)]
-    for merger in mergers:
-        merger.start()
-
-    wait_for_mergers(mergers)
+    run_mergers(mergers)
 
     logger.info(f"Vocab is available at {vocab_file_path}")
     logger.info(f"Vocab stats is available at {vocab_size_file_path}")
\ No newline at end of file
-- 
2.43.0


From 167e2673d58559ca70bfd0d31d028da57797ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:21 +0000
Subject: [PATCH 26/26] fix: mergers must not inherit an import lock that a
 thread of the parent is holding

Queues pickle what is put into them in a thread. While the vocabs are being pickled there, the
mergers are started; pickling looks up classes in their modules, for which PyPy takes the import
lock of the module, so a merger could be forked with that lock held forever: it waited for it in
the first queue.get(), and learn-bpe hung. Now the vocabs are already pickled when they are put.
---
 codeprep/pipeline/vocab.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 5054471..7efc230 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -145,8 +145,8 @@ class VocabMerger(multiprocessing.Process):
                     break
 
             # there is always one vocab more in a chunk than merges left to be done, so these calls cannot block forever
-            first = self.tasks[chunk_assigned].get()
-            second = self.tasks[chunk_assigned].get()
+            first = pickle.loads(self.tasks[chunk_assigned].get())
+            second = pickle.loads(self.tasks[chunk_assigned].get())
 
             start = time.time()
 
@@ -162,11 +162,11 @@ class VocabMerger(multiprocessing.Process):
             if log_this_merge:
                 self._log_merge_results(new_words, len(first.merged_word_counts), time.time() - start)
 
-            self.tasks[chunk_assigned].put_nowait(first)
+            self.tasks[chunk_assigned].put_nowait(pickle.dumps(first))
 
     def _finish_merges(self) -> None:
         logger.info("===============     Finishing merges    ===============")
-        list_from_chunks = [queue.get() for queue in self.tasks.values()]
+        list_from_chunks = [pickle.loads(queue.get()) for queue in self.tasks.values()]
 
         percents_in_one_chunk = 100 // len(list_from_chunks)
 
@@ -285,7 +285,9 @@ def create_chunk_queue(chunk_sizes: Dict[int, int], num_mergers: int) -> Tuple[Q
 def mapify_tasks(tasks: List[PartialVocab]) -> Tuple[Dict[int, Queue], Dict[int, int]]:
     task_lists_in_chunks = defaultdict(list)
     for task in tasks:
-        task_lists_in_chunks[task.chunk].append(task)
+        # pickled here and not by the thread of the queue: the mergers are started while that thread is running,
+        # and if it is importing something at that moment, they inherit an import lock that nobody is going to release
+        task_lists_in_chunks[task.chunk].append(pickle.dumps(task))
     return {chunk: list_to_queue(task_list_in_chunk) for chunk, task_list_in_chunk in
             task_lists_in_chunks.items()}, {k: len(v) for k, v in task_lists_in_chunks.items()}
 
-- 
2.43.0

