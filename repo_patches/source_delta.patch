From b5fb44f9a3f72ecfc477de27795cfc6012543590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:19 +0000
Subject: [PATCH 01/24] fix: count the n-gram indices in the explicit vocab
 chunk length

The declared chunk size was 8 bytes per n-gram too small, so chunks following
an ExplicitVocab could not be found (load_storage, load_norms failed).
---
 src/finalfusion/vocab/subword.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/vocab/subword.py b/src/finalfusion/vocab/subword.py
index 45193fe..fc2f765 100644
--- a/src/finalfusion/vocab/subword.py
+++ b/src/finalfusion/vocab/subword.py
@@ -373,6 +373,9 @@ class ExplicitVocab(SubwordVocab):
         chunk_length = _calculate_binary_list_size(self.words)
         chunk_length += _calculate_binary_list_size(
             self.subword_indexer.ngrams)
+        # each n-gram is followed by its index
+        chunk_length += len(
+            self.subword_indexer.ngrams) * struct.calcsize("<Q")
         min_n_max_n_size = struct.calcsize("<II")
         chunk_length += min_n_max_n_size
         chunk_header = (int(self.chunk_identifier()), chunk_length,
-- 
2.43.0


From ce4a15e7dbd0d9151ef5519bc300297b78aa06bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:19 +0000
Subject: [PATCH 02/24] fix: reject norms that are not float32

The dtype check was always false, e.g. float64 norms were accepted and then
serialized as if they were float32.
---
 src/finalfusion/norms.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index c931dad..71779c9 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -35,11 +35,10 @@ class Norms(np.ndarray, Chunk, Collection[float]):
 
         Raises
         ------
-        AssertionError
+        TypeError
             If array is not a 1-d array of float32 values.
         """
-        if not np.issubdtype(array.dtype,
-                             np.float32) != np.float32 or array.ndim != 1:
+        if not np.issubdtype(array.dtype, np.float32) or array.ndim != 1:
             raise TypeError(
                 f"expected 1-d float32 array, not {array.ndim}-d {array.dtype}"
             )
-- 
2.43.0


From 633fc508029f76895b7fdc606506424868f965b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:19 +0000
Subject: [PATCH 03/24] fix: scale by the norms when iterating over a
 QuantizedArray

Indexing and numpy conversion scale reconstructed embeddings by their norm,
iteration did not.
---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 80bbb0c..a2971ec 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -271,7 +271,7 @@ class QuantizedArray(Storage):
         return self.embedding(key)
 
     def __iter__(self) -> Iterator[np.ndarray]:
-        return map(self._quantizer.reconstruct, self._quantized_embeddings)
+        return map(self.embedding, range(len(self)))
 
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
-- 
2.43.0


From 3dc0d570101861d77e3b066ab9256dc5f9d60a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:19 +0000
Subject: [PATCH 04/24] fix: support dtype in the numpy conversion of
 QuantizedArray

numpy passes the requested dtype to __array__, np.asarray(storage, dtype) and
assigning a QuantizedArray to a slice (bucket_to_explicit) failed.
---
 src/finalfusion/storage/quantized.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index a2971ec..c29cd5a 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -276,11 +276,10 @@ class QuantizedArray(Storage):
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
 
-    def __array__(self) -> np.ndarray:
-        if self._norms is None:
-            return self._quantizer.reconstruct(self._quantized_embeddings)
-        return self._norms[:, None] * self._quantizer.reconstruct(
-            self._quantized_embeddings)
+    def __array__(self, dtype=None, copy=None) -> np.ndarray:
+        # the reconstruction is always a new array
+        array = self.embedding(slice(None))
+        return array if dtype is None else array.astype(dtype, copy=False)
 
     @classmethod
     def load(cls, file: BinaryIO, mmap=False) -> 'QuantizedArray':
-- 
2.43.0


From 4f3fc3c267c27cae5495afa81dcba81741e7d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 05/24] fix: support similarity and analogy queries on
 quantized storage

QuantizedArray has no dot method, every query raised an AttributeError.
---
 src/finalfusion/embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index ee86099..08b0bfc 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -605,7 +605,7 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
     def _similarity(self, query: np.ndarray, k: int,
                     skips: Set[str]) -> List['SimilarityResult']:
         words = self.storage[:len(self.vocab)]  # type: np.ndarray
-        sims = words.dot(query)
+        sims = np.dot(words, query)
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
                            if skip is not None)
-- 
2.43.0


From fcfb2801bbc45ed2da7850174ba7127a15f63d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 06/24] fix: return fewer than k results from queries on small
 vocabularies

At most k results are promised, but queries failed with a ValueError if k and
the number of skipped words exceeded the vocabulary size.
---
 src/finalfusion/embeddings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index 08b0bfc..ad4dac0 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -609,9 +609,10 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
                            if skip is not None)
-        partition = sims.argpartition(-k -
-                                      len(skip_indices))[-k -
-                                                         len(skip_indices):]
+        n_candidates = min(k + len(skip_indices), len(sims))
+        if n_candidates == 0:
+            return []
+        partition = sims.argpartition(-n_candidates)[-n_candidates:]
 
         heap = []  # type: List[SimilarityResult]
         for idx in partition:
-- 
2.43.0


From 20c14ee0ead5b468f39ffa51f4f63bb34fb2471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 07/24] fix: allow an ExplicitIndexer with an empty n-gram
 index

Converting a bucket vocab without any n-grams to explicit and reading an
explicit vocab without n-grams failed with a ValueError.
---
 src/finalfusion/subword/explicit_indexer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index 968c461..c99c6f0 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -51,7 +51,7 @@ cdef class ExplicitIndexer:
                 f'ngrams cannot contain duplicate entries. {len(ngrams) - n_unique_ngrams} duplicates.'
             assert all(ngram in ngram_index for ngram in unique_ngrams) and (len(ngram_index) == len(ngrams)), \
                 'ngram_index needs to index all and only items in the ngrams list.'
-            max_idx = max(ngram_index.values())
+            max_idx = max(ngram_index.values(), default=-1)
             n_unique_vals = len(set(ngram_index.values()))
             assert max_idx + 1 == n_unique_vals, \
                 f"Indices need to cover 0, max(ngram_index.values())"
-- 
2.43.0


From 33aacd4b52ad852746268604472bd2abef95cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 08/24] fix: reject negative indices in ExplicitIndexer

A negative index could make up for a gap in the indices, the mapping then
covered indices outside of [0, upper_bound).
---
 src/finalfusion/subword/explicit_indexer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index c99c6f0..1728452 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -53,7 +53,7 @@ cdef class ExplicitIndexer:
                 'ngram_index needs to index all and only items in the ngrams list.'
             max_idx = max(ngram_index.values(), default=-1)
             n_unique_vals = len(set(ngram_index.values()))
-            assert max_idx + 1 == n_unique_vals, \
+            assert max_idx + 1 == n_unique_vals and min(ngram_index.values(), default=0) >= 0, \
                 f"Indices need to cover 0, max(ngram_index.values())"
             self._bound = max_idx + 1
         self._ngram_index = ngram_index
-- 
2.43.0


From 477b9e3dc0743b804b6ef569a2e5765e98a781a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 09/24] fix: keep null vectors when normalizing embeddings

Loading text, word2vec or fastText embeddings replaced null vectors by NaNs.
---
 src/finalfusion/_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/_util.py b/src/finalfusion/_util.py
index 5fa82f8..c216845 100644
--- a/src/finalfusion/_util.py
+++ b/src/finalfusion/_util.py
@@ -8,7 +8,8 @@ from finalfusion.norms import Norms
 
 def _normalize_matrix(storage: np.ndarray) -> Norms:
     norms = np.linalg.norm(storage, axis=1)
-    storage /= norms[:, None]
+    # null vectors can't be normalized
+    storage /= np.where(norms == 0, 1, norms)[:, None]
     return Norms(norms)
 
 
-- 
2.43.0


From c1ec521497123bd5de8542b7c8c5377672dbc68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 10/24] fix: do not divide computed null vectors by their norm

The embedding of an unknown word and the analogy query vector became NaN if
the summed vectors cancelled each other out.
---
 src/finalfusion/embeddings.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index ad4dac0..b17cce9 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -518,7 +518,9 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
             return None
         diff = embed_b - embed_a
         embed_d = embed_c + diff
-        embed_d /= np.linalg.norm(embed_d)
+        norm = np.linalg.norm(embed_d)
+        if norm != 0:
+            embed_d /= norm
         return self._similarity(
             embed_d, k, {word1, word2, word3} if skip is None else skip)
 
@@ -638,7 +640,8 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
         else:
             out = np.add.reduce(res, 0, out=out, keepdims=False)
             norm = np.linalg.norm(out)
-            out /= norm
+            if norm != 0:
+                out /= norm
         return out, norm
 
     @staticmethod
-- 
2.43.0


From 61035bd6ce8d0f54ff0bb38e8edc1cb12fac80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 11/24] fix: keep non-ASCII whitespace of words in word2vec
 files

Words consisting of or delimited by e.g. a no-break space were changed or
lost, the text formats already handle them.
---
 src/finalfusion/compat/word2vec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 32dbc82..2e44e7a 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -2,6 +2,7 @@
 Word2vec binary format.
 """
 
+import string
 import sys
 from os import PathLike
 from typing import Union, BinaryIO, AnyStr
@@ -45,7 +46,9 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         rows, cols = map(int, inf.readline().decode("ascii").split())
         matrix = np.zeros((rows, cols), dtype=np.float32)
         for row in matrix:
-            words.append(_read_binary_word(inf, b' ', lossy).strip())
+            # only strip ASCII whitespace, words can contain other whitespace
+            words.append(
+                _read_binary_word(inf, b' ', lossy).strip(string.whitespace))
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
             if sys.byteorder == "big":
                 array.byteswap(inplace=True)
-- 
2.43.0


From 1776995acd5dc986b80346f033be15d7bb6f887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 12/24] fix: reject word2vec files that end within an embedding

A single remaining component was broadcast to the entire embedding.
---
 src/finalfusion/compat/word2vec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 2e44e7a..f155068 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -50,6 +50,8 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
             words.append(
                 _read_binary_word(inf, b' ', lossy).strip(string.whitespace))
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
+            if len(array) != cols:
+                raise EOFError
             if sys.byteorder == "big":
                 array.byteswap(inplace=True)
             row[:] = array
-- 
2.43.0


From c31e12ef1a9a92704bd2552e23e1499687de0cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 13/24] fix: reject text embeddings with a single component

A lone component was broadcast to the entire embedding instead of raising an
error as for any other mismatch.
---
 src/finalfusion/compat/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/compat/text.py b/src/finalfusion/compat/text.py
index dd7f8d9..f2c2adf 100644
--- a/src/finalfusion/compat/text.py
+++ b/src/finalfusion/compat/text.py
@@ -145,6 +145,9 @@ def _load_text(file: TextIO, rows: int, cols: int) -> Embeddings:
     matrix = np.zeros((rows, cols), dtype=np.float32)
     for row, line in zip(matrix, file):
         parts = _ASCII_WHITESPACE_PAT.split(line.rstrip())
+        if len(parts) != cols + 1:
+            raise ValueError(
+                f"Expected {cols} components, not {len(parts) - 1}: {line!r}")
         words.append(parts[0])
         row[:] = parts[1:]
     storage = NdArray(matrix)
-- 
2.43.0


From e1c55d36fba173a52c05efa31f6bbabf94606352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 14/24] fix: reject vocabularies that end within an item

Reading a truncated file returned a vocab with a shortened last item.
---
 src/finalfusion/vocab/vocab.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/vocab/vocab.py b/src/finalfusion/vocab/vocab.py
index b24ac31..7b5051e 100644
--- a/src/finalfusion/vocab/vocab.py
+++ b/src/finalfusion/vocab/vocab.py
@@ -6,7 +6,8 @@ import struct
 from typing import List, Optional, Dict, Tuple, BinaryIO, Iterable, Any, Union, Sequence, \
     Iterator, Collection
 
-from finalfusion.io import Chunk, _read_required_binary, _write_binary
+from finalfusion.io import Chunk, FinalfusionFormatError, _read_required_binary, \
+    _write_binary
 
 
 class Vocab(Chunk, Collection[str]):
@@ -111,6 +112,16 @@ def _write_words_binary(b_words: Iterable[bytes], file: BinaryIO):
         file.write(word)
 
 
+def _read_item(file: BinaryIO, length: int) -> str:
+    """
+    Helper method to read a single item of the given length in bytes.
+    """
+    item = file.read(length)
+    if len(item) != length:
+        raise FinalfusionFormatError(f'Could not read {length} bytes from file')
+    return item.decode("utf-8")
+
+
 def _read_items(file: BinaryIO, length: int) -> List[str]:
     """
     Helper method to read items from a vocabulary chunk.
@@ -130,7 +141,7 @@ def _read_items(file: BinaryIO, length: int) -> List[str]:
     items = []
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        word = file.read(item_length).decode("utf-8")
+        word = _read_item(file, item_length)
         items.append(word)
     return items
 
@@ -156,7 +167,7 @@ def _read_items_with_indices(file: BinaryIO,
     index = dict()
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        item = file.read(item_length).decode("utf-8")
+        item = _read_item(file, item_length)
         idx = _read_required_binary(file, "<Q")[0]
         items.append(item)
         index[item] = idx
-- 
2.43.0


From 93967cf3787715885d8bc03f80c20fe50055d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 15/24] fix: reject arrays that end prematurely

Reading norms from a truncated file returned fewer norms without an error.
---
 src/finalfusion/io.py    | 2 ++
 src/finalfusion/norms.py | 8 +++-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index 418f746..816b9ea 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -329,6 +329,8 @@ def _serialize_array_as_le(file: BinaryIO, array: np.ndarray):
 def _read_array_as_native(file: BinaryIO, dtype: np.dtype,
                           count: int) -> np.array:
     array = np.fromfile(file=file, count=count, dtype=dtype)
+    if array.size != count:
+        raise FinalfusionFormatError(f'Could not read {count} items from file')
     if sys.byteorder == "big":
         array.byteswap(inplace=True)
     return array
diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index 71779c9..903f419 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -4,13 +4,13 @@ Norms module.
 
 import struct
 from os import PathLike
-import sys
 from typing import BinaryIO, Union, List, Collection
 
 import numpy as np
 
 from finalfusion.io import Chunk, ChunkIdentifier, find_chunk, TypeId, FinalfusionFormatError, \
-    _pad_float32, _write_binary, _read_required_binary, _serialize_array_as_le
+    _pad_float32, _write_binary, _read_required_binary, _serialize_array_as_le, \
+    _read_array_as_native
 
 
 class Norms(np.ndarray, Chunk, Collection[float]):
@@ -57,9 +57,7 @@ class Norms(np.ndarray, Chunk, Collection[float]):
                 f"Invalid Type, expected {TypeId.f32}, got {str(type_id)}")
         padding = _pad_float32(file.tell())
         file.seek(padding, 1)
-        array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
-        if sys.byteorder == "big":
-            array.byteswap(inplace=True)
+        array = _read_array_as_native(file, np.float32, n_norms)
         return Norms(array)
 
     def write_chunk(self, file: BinaryIO):
-- 
2.43.0


From 2997e2daf3289bf2374667bbfc390fcc21279c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 16/24] fix: report failures to write arrays

numpy.ndarray.tofile ignores errors when flushing its buffer. If e.g. the disk
was full, the end of the last array was lost without an error.
---
 src/finalfusion/io.py                | 6 +++---
 src/finalfusion/storage/quantized.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index 816b9ea..45edc40 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -317,13 +317,13 @@ def _serialize_array_as_le(file: BinaryIO, array: np.ndarray):
     array_bo = array.dtype.byteorder
     array_is_le = array_bo in "<|" or (array_bo == "=" and native_is_le)
     if array_is_le:
-        array.tofile(file)
+        file.write(np.ascontiguousarray(array))
     else:
         if array.ndim == 2:
             for row in array:
-                row.byteswap(inplace=False).tofile(file)
+                file.write(row.byteswap(inplace=False).tobytes())
         else:
-            array.byteswap(inplace=False).tofile(file)
+            file.write(array.byteswap(inplace=False).tobytes())
 
 
 def _read_array_as_native(file: BinaryIO, dtype: np.dtype,
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index c29cd5a..c81245a 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -335,7 +335,7 @@ class QuantizedArray(Storage):
         _serialize_array_as_le(file, self.quantizer.subquantizers)
         if norms:
             _serialize_array_as_le(file, self._norms)
-        self._quantized_embeddings.tofile(file)
+        _serialize_array_as_le(file, self._quantized_embeddings)
 
     @staticmethod
     def chunk_identifier() -> ChunkIdentifier:
-- 
2.43.0


From 0ff1d369a69d74ed40327427c547922ec4d218bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 17/24] fix: exclude the third query word in ffp-analogy unless
 included

With --include, b was skipped in place of c.
---
 src/finalfusion/scripts/analogy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/scripts/analogy.py b/src/finalfusion/scripts/analogy.py
index 934c450..1bf5cb9 100644
--- a/src/finalfusion/scripts/analogy.py
+++ b/src/finalfusion/scripts/analogy.py
@@ -72,7 +72,7 @@ def get_skips(  # pylint: disable=missing-function-docstring
     if 'b' not in includes:
         skips.add(query_b)
     if 'c' not in includes:
-        skips.add(query_b)
+        skips.add(query_c)
     return skips
 
 
-- 
2.43.0


From ae2cbc9f2a81991456bdf7c7f646f56e86379bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 18/24] fix: skip unrepresentable words in ffp-select

--ignore_unk added them to the vocabulary with null vectors as embeddings.
---
 src/finalfusion/scripts/select.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/scripts/select.py b/src/finalfusion/scripts/select.py
index 5ae4b27..4742902 100644
--- a/src/finalfusion/scripts/select.py
+++ b/src/finalfusion/scripts/select.py
@@ -3,6 +3,7 @@ Write new embeddings according to a list of words.
 """
 import argparse
 import sys
+from typing import List
 
 import numpy as np
 from finalfusion import Metadata, Embeddings
@@ -45,10 +46,11 @@ def main() -> None:  # pylint: disable=missing-function-docstring
         unique_words = set(word.strip() for word in inp)
         matrix = np.zeros((len(unique_words), embeds.storage.shape[1]),
                           dtype=np.float32)
-        vocab = SimpleVocab(list(unique_words))
-        for i, word in enumerate(vocab):
+        words = []  # type: List[str]
+        for word in unique_words:
             try:
-                matrix[i] = embeds[word]
+                matrix[len(words)] = embeds[word]
+                words.append(word)
             except KeyError:
                 if args.verbose or not args.ignore_unk:
                     print(f"Cannot represent '{word}'.", file=sys.stderr)
@@ -57,7 +59,8 @@ def main() -> None:  # pylint: disable=missing-function-docstring
     metadata = Metadata({"source_embeddings": args.input})
     if embeds.metadata is not None:
         metadata["source_metadata"] = embeds.metadata
-    Embeddings(storage=NdArray(matrix), vocab=vocab,
+    Embeddings(storage=NdArray(matrix[:len(words)]),
+               vocab=SimpleVocab(words),
                metadata=metadata).write(args.output)
 
 
-- 
2.43.0


From 67048a429fcd4cb5ea4d3dabc1b124696a2c36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:08 +0000
Subject: [PATCH 19/24] fix: support writing quantized embeddings to fastText

QuantizedArray is no numpy array, writing failed with an AttributeError.
---
 src/finalfusion/compat/fasttext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 34d3367..ea9dc1b 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -109,7 +109,7 @@ def write_fasttext(file: Union[str, bytes, int, PathLike], embeds: Embeddings):
             _write_ft_storage_simple(outf, embeds)
         else:
             _write_ft_storage_subwords(outf, embeds)
-        _serialize_array_as_le(outf, embeds.storage)
+        _serialize_array_as_le(outf, np.asarray(embeds.storage))
 
 
 def _read_ft_header(file: BinaryIO):
@@ -295,7 +295,7 @@ def _write_ft_storage_subwords(outf: BinaryIO, embeds: Embeddings):
         embed -= sw_embeds.sum(0, keepdims=False)
         _serialize_array_as_le(outf, embed)
 
-    _serialize_array_as_le(outf, storage[len(vocab):])
+    _serialize_array_as_le(outf, np.asarray(storage[len(vocab):]))
 
 
 def _write_ft_storage_simple(outf: BinaryIO, embeds: Embeddings):
-- 
2.43.0


From e97ada504bb97f8c0e44dea57445b4cbd591956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:10 +0000
Subject: [PATCH 20/24] fix: reconstruct projected vectors into any output
 buffer

ndarray.dot(out=...) refuses buffers that are not C-contiguous, native
float32 arrays, so reconstruction with a projection failed for strided
or float64 buffers and for quantizers in non-native byte order.
---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index c81245a..939f8f3 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -149,7 +149,7 @@ class PQ:
             out[:] = self._quantizers[quantizers_range, quantized].reshape(
                 out.shape)
         if self.projection is not None:
-            out.dot(self.projection.T, out=out)
+            out[...] = out.dot(self.projection.T)
         return out
 
 
-- 
2.43.0


From 95c75b7f4727e3957809a0b6a786c05b9844b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:07 +0000
Subject: [PATCH 21/24] fix: write the header of the output matrix of fastText
 models

The output matrix was written without its header, so that fastText and
other readers take vector components for its dimensions.
---
 src/finalfusion/compat/fasttext.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index ea9dc1b..ec86641 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -109,6 +109,8 @@ def write_fasttext(file: Union[str, bytes, int, PathLike], embeds: Embeddings):
             _write_ft_storage_simple(outf, embeds)
         else:
             _write_ft_storage_subwords(outf, embeds)
+        # the output matrix, which has a header of its own
+        _write_binary(outf, "<?QQ", 0, *embeds.storage.shape)
         _serialize_array_as_le(outf, np.asarray(embeds.storage))
 
 
-- 
2.43.0


From fe459107f7c37aea5576d4169ae7e8c9a3e87288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 22/24] fix: map storages from the open file rather than by its
 name

load_finalfusion & co. accept a file descriptor, but with mmap=True they raised
TypeError, because the storage was mapped through file.name.
---
 src/finalfusion/storage/ndarray.py   | 4 ++--
 src/finalfusion/storage/quantized.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/storage/ndarray.py b/src/finalfusion/storage/ndarray.py
index 12834e9..696bd3b 100644
--- a/src/finalfusion/storage/ndarray.py
+++ b/src/finalfusion/storage/ndarray.py
@@ -84,12 +84,12 @@ class NdArray(np.ndarray, Storage):
                 "Memmapping arrays is not supported on big endian platforms")
         rows, cols = NdArray._read_array_header(file)
         offset = file.tell()
-        file.seek(rows * cols * struct.calcsize('f'), 1)
-        array = np.memmap(file.name,
+        array = np.memmap(file,
                           dtype='<f4',
                           mode='r',
                           offset=offset,
                           shape=(rows, cols))
+        file.seek(offset + rows * cols * struct.calcsize('f'))
         return NdArray(array)
 
     @staticmethod
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 939f8f3..ec4c2b1 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -304,12 +304,12 @@ class QuantizedArray(Storage):
             file)
         n_embeddings, quantized_len = embeds_shape
         offset = file.tell()
-        file.seek(n_embeddings * quantized_len, 1)
-        quantized_embeddings = np.memmap(file.name,
+        quantized_embeddings = np.memmap(file,
                                          dtype=np.uint8,
                                          mode='r',
                                          offset=offset,
                                          shape=embeds_shape)
+        file.seek(offset + n_embeddings * quantized_len)
         return QuantizedArray(quantizer, quantized_embeddings, norms)
 
     def write_chunk(self, file: BinaryIO):
-- 
2.43.0


From 4068b11a0d2a1d423b5012508f7fd964502b52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:27 +0000
Subject: [PATCH 23/24] fix: write fastText vectors of words with 65535 or more
 n-grams as float32

---
 src/finalfusion/compat/fasttext.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index ec86641..f59ca68 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -290,7 +290,8 @@ def _write_ft_storage_subwords(outf: BinaryIO, embeds: Embeddings):
     for i, word in enumerate(vocab):
         indices = vocab.subword_indices(word)
         embed = storage[i]  # type: np.ndarray
-        embed = embed * (len(indices) + 1)
+        # a large Python int would promote the vector to float64
+        embed = embed * np.float32(len(indices) + 1)
         if norms is not None:
             embed *= norms[i]
         sw_embeds = storage[indices]  # type: np.ndarray
-- 
2.43.0


From f3fd53b01376bb7f21853a045e891f7b520cf779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:09 +0000
Subject: [PATCH 24/24] fix: map empty storages that start at the end of a page

---
 src/finalfusion/storage/ndarray.py   | 3 +++
 src/finalfusion/storage/quantized.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/finalfusion/storage/ndarray.py b/src/finalfusion/storage/ndarray.py
index 696bd3b..84dbbb8 100644
--- a/src/finalfusion/storage/ndarray.py
+++ b/src/finalfusion/storage/ndarray.py
@@ -84,6 +84,9 @@ class NdArray(np.ndarray, Storage):
                 "Memmapping arrays is not supported on big endian platforms")
         rows, cols = NdArray._read_array_header(file)
         offset = file.tell()
+        if 0 in (rows, cols):
+            # there are no bytes to map, the buffer may be at the end of file
+            return NdArray(np.empty((rows, cols), np.float32))
         array = np.memmap(file,
                           dtype='<f4',
                           mode='r',
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index ec4c2b1..dfed59e 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -304,6 +304,10 @@ class QuantizedArray(Storage):
             file)
         n_embeddings, quantized_len = embeds_shape
         offset = file.tell()
+        if 0 in embeds_shape:
+            # there are no bytes to map, the buffer may be at the end of file
+            return QuantizedArray(quantizer, np.empty(embeds_shape, np.uint8),
+                                  norms)
         quantized_embeddings = np.memmap(file,
                                          dtype=np.uint8,
                                          mode='r',
-- 
2.43.0

