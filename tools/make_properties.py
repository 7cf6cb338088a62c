#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=["src/finalfusion/" + f for f in files],
            state=[dict(name=n, meaning=m, where="src/finalfusion/" + w) for n, m, w in state],
            mechanism=[dict(name=n, where="src/finalfusion/" + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "finalfusion write/load round trip is lossless",
 "Embeddings written to a finalfusion file and loaded again, eagerly or memory-mapped, are the same embeddings: same vocabulary type, words, word order and indices, same subword configuration, bit-identical storage, bit-identical norms and equal metadata, with absent optional parts still absent. This holds for every vocabulary type, storage type and combination of optional parts, whatever the memory layout or byte order of the arrays in memory, and writing the loaded embeddings again produces the same file. Each part written on its own as a single-chunk file also loads back equal. Words that UTF-8 cannot hold make the write fail.",
 ["inputs", "configurations"],
 "For all words (any Unicode), vocab types (simple, finalfusion bucket, fastText, explicit), n-gram ranges and bucket counts, array and quantized storage with and without projection and norms, norms, metadata, array layouts, eager and mmap loading.",
 "The tests round-trip five fixed fixture files and compare mostly with allclose; no quantized storage with norms, no odd alignments, non-contiguous or big-endian arrays, empty parts or non-ASCII corner cases.",
 ["embeddings.py", "io.py", "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py"],
 [("Embeddings.write / load_finalfusion", "embeddings.py"), ("write_chunk/read_chunk pairs", "vocab/*.py, storage/*.py, norms.py, metadata.py"), ("_serialize_array_as_le, _pad_float32", "io.py")],
 observe=["Embeddings.write", "load_finalfusion", "Chunk.write", "load_* functions"])

prop("C02", "Written files follow the finalfusion format; any conforming file loads",
 "Every file the library writes is a well-formed finalfusion file: magic and version, a header listing exactly the chunks that follow in order, each chunk's declared length equal to its number of content bytes, little-endian data, UTF-8 words, and float arrays padded so that they start at a multiple of four bytes. Conversely, every well-formed file produced by another implementation loads to exactly the words, indices, vectors, norms and metadata it encodes.",
 ["inputs", "configurations"],
 "For all embeddings and all conforming files, i.e. all chunk combinations, alignments, word byte lengths, matrix shapes, quantizer configurations.",
 "A write/read bug that is symmetric survives every round-trip test; only a handful of fixtures made by other implementations exist and the bytes the library writes are never inspected.",
 ["io.py", "embeddings.py", "vocab/subword.py", "vocab/vocab.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py"],
 [("Header.write_chunk/read_chunk", "io.py"), ("chunk_length computations", "vocab/subword.py, storage/*.py"), ("_pad_float32", "io.py")],
 observe=["bytes of files written", "load_finalfusion on files from an independent writer"])

prop("C03", "Every chunk can be loaded on its own from any file that contains it",
 "For any finalfusion file, loading a single part (vocabulary of any or one specific type, storage of any or one specific type, norms, metadata) yields the first such chunk of the file, equal to what that chunk encodes and to the corresponding part of the fully loaded embeddings, no matter which chunks precede it. If the file does not contain such a chunk a ValueError is raised.",
 ["inputs", "configurations"],
 "For all sequences of chunks in a file, all loader functions, eager and mmap.",
 "Tests load single chunks from few fixtures in which the sought chunk follows at most a metadata and a simple or bucket vocab chunk; skipping explicit vocabs, quantized arrays or norms is never exercised.",
 ["io.py", "vocab/__init__.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/__init__.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py"],
 [("find_chunk skips by declared chunk length", "io.py"), ("load_vocab, load_storage, load_norms, load_metadata, load_<type>", "vocab, storage, norms.py, metadata.py")],
 observe=["load_* functions"])

prop("C04", "An incomplete finalfusion file is never loaded as different data",
 "If a finalfusion file is cut off at any byte, as after a crash while writing or an interrupted copy, loading it or any part of it either raises an exception or returns parts that are equal to those of the complete file. A truncated file never yields shortened words, missing words or n-grams, fewer norms, or altered vectors.",
 ["crash_points", "inputs"],
 "For all files the library can write, all cut positions, all loaders, eager and mmap.",
 "No test reads a truncated file; correctness depends on the length check behind every single read.",
 ["io.py", "vocab/vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "embeddings.py"],
 [("_read_binary/_read_required_binary length checks", "io.py"), ("item and array length checks", "vocab/vocab.py, io.py"), ("Embeddings consistency checks", "embeddings.py")],
 observe=["load_* functions on every prefix of a file"])

prop("C05", "Incomplete word2vec, fastText and text files are never loaded as different data",
 "If a word2vec, fastText or text-dims file ends before all declared words and vectors are complete, or a text file has a line with a wrong number of components or with a component that is not a number, loading raises an exception. Loading never returns embeddings with fabricated, repeated, shortened or missing vectors or words.",
 ["crash_points", "inputs"],
 "For all files of these formats and all cut positions that remove part of a word or component or any later data (text: at least one component), and all lines with missing or surplus components.",
 "No test reads truncated or ragged files of these formats.",
 ["compat/word2vec.py", "compat/fasttext.py", "compat/text.py", "io.py"],
 [("row and component counts", "compat/word2vec.py, compat/text.py"), ("_read_required_binary, reshape", "compat/fasttext.py")],
 observe=["load_word2vec, load_fasttext, load_text, load_text_dims"])

prop("C06", "A failed write is always reported",
 "If writing embeddings or a single chunk in any output format returns normally, the file on disk is complete. If the operating system refuses or shortens any write (disk full, file size limit), at whatever byte, the writing function raises an exception.",
 ["fault_sequences", "inputs"],
 "For every offset at which the operating system stops accepting data, every writer (finalfusion, single chunks, word2vec, text, text-dims, fastText), every storage and vocab type.",
 "No test injects write faults; buffered output loses data silently exactly at the last buffer.",
 ["io.py", "embeddings.py", "storage/quantized.py", "storage/ndarray.py", "norms.py", "compat/word2vec.py", "compat/fasttext.py", "compat/text.py"],
 [("with open(...) and checked file.write", "embeddings.py, io.py, compat/*.py"), ("_serialize_array_as_le", "io.py")],
 observe=["Embeddings.write, Chunk.write, write_*"])

prop("C07", "Embedding lookup returns the right vector, norm or default",
 "Looking up a known word returns exactly its stored row (for quantized storage its reconstruction) and, with norms, its stored norm. Looking up an unknown word in a subword vocabulary returns the sum of the vectors of its n-grams divided by its L2 norm, together with that norm; a zero sum stays zero. If no vector exists, indexing raises KeyError, the other lookups return the default, and an output buffer, if given, receives exactly the returned vector and is otherwise left untouched. Iterating over embeddings yields every known word in order with its vector and, with norms, its norm.",
 ["inputs", "configurations"],
 "For all vocab types, storage types (array, mmap, quantized), known and unknown words (any Unicode, any length), norms present or not, out buffers and defaults.",
 "The tests look up a few words of two small fixtures; out buffers with unknown words, quantized storage, explicit vocabs and degenerate sums are not covered.",
 ["embeddings.py", "vocab/subword.py", "vocab/vocab.py", "vocab/simple_vocab.py", "storage/quantized.py", "storage/ndarray.py"],
 [("Embeddings.embedding, embedding_with_norm, __getitem__, _embedding", "embeddings.py"), ("Vocab.idx", "vocab/*.py")],
 observe=["Embeddings.embedding, embedding_with_norm, __getitem__, __iter__, __contains__"])

prop("C08", "Vocabularies map words and n-grams to consistent, in-range indices",
 "In every vocabulary the i-th word has index i, and length, membership, iteration, index lookup and equality all agree with that word list. An unknown word yields the list of indices of its n-grams (offset by the number of words), each at least the number of words and below the vocabulary's upper bound, or the default, or KeyError when none exist; the upper bound equals the number of words plus the number of n-gram indices. Words that differ only in case, whitespace or Unicode normalization are different words.",
 ["inputs", "configurations"],
 "For all word lists, indexers, n-gram ranges, query strings.",
 "Tests use vocabularies of digits and a few fixtures.",
 ["vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "subword/explicit_indexer.pyx", "subword/hash_indexers.pyx"],
 [("_validate_items_and_create_index", "vocab/vocab.py"), ("SubwordVocab.idx, upper_bound, subword_indices", "vocab/subword.py")],
 observe=["Vocab.idx, __getitem__, __contains__, __len__, __iter__, __eq__, upper_bound, subwords, subword_indices"])

prop("C09", "N-gram extraction and bucket hashing follow the published algorithms",
 "For every string and n-gram range, n-gram extraction yields every substring of minimum to maximum length in characters of the (optionally bracketed) string, ordered by start and then longest first, and nothing else. The finalfusion indexer maps each n-gram to the low bits of the 64-bit FNV-1a hash of its length and code points, the fastText indexer to the sign-extending 32-bit FNV-1a hash of its UTF-8 bytes modulo the bucket count, and the explicit indexer to its table entry, skipping absent n-grams. Indexing a whole string, with or without the n-grams, agrees with indexing each n-gram separately plus the offset.",
 ["inputs", "configurations"],
 "For all strings (all code points, all lengths), n-gram ranges, bucket counts and exponents 1..63, offsets, bracket and with_ngrams flags.",
 "The tests check one word per indexer with default ranges; embeddings trained elsewhere become useless if any n-gram hashes differently.",
 ["subword/hash_indexers.pyx", "subword/explicit_indexer.pyx", "subword/ngrams.pyx", "vocab/subword.py"],
 [("fifu_hash_ngram, ft_hash_ngram, find_utf8_boundaries", "subword/hash_indexers.pyx"), ("ngrams", "subword/ngrams.pyx"), ("fnv_64a_buf", "../fnv/hash_64a.c")],
 observe=["ngrams, FinalfusionHashIndexer, FastTextIndexer, ExplicitIndexer"])

prop("C10", "The native subword code is memory-safe and free of undefined behaviour",
 "No call of the n-gram extraction or of any subword indexer, with any string, n-gram range, bucket count and offset, reads or writes memory out of bounds, uses freed memory, executes undefined behaviour, crashes the interpreter or leaks memory. Invalid arguments raise Python exceptions.",
 ["inputs", "configurations", "schedules"],
 "For all strings and parameters, including empty, very long, all-multibyte and invalid ones, from one or several threads.",
 "Ordinary tests cannot see out-of-bounds accesses that happen not to crash, and they use short words with default ranges.",
 ["subword/hash_indexers.pyx", "subword/explicit_indexer.pyx", "subword/ngrams.pyx"],
 [("find_utf8_boundaries buffer of n_bytes + 1 offsets", "subword/hash_indexers.pyx"), ("loop bounds length + 1 - min_n", "subword/*.pyx"), ("fnv_64a_buf", "../fnv/hash_64a.c")],
 observe=["AddressSanitizer and UndefinedBehaviorSanitizer reports, allocator block counts"])

prop("C11", "Quantized storage behaves like the matrix it encodes",
 "A quantized storage denotes the matrix whose rows are the concatenated centroids chosen by the codes, multiplied by the projection if present and scaled by the norm if present. Its shape and length, indexing with integers, lists and arrays of any dimension, slicing (also repeatedly, with any step), reconstruction into an output buffer, iteration and conversion to numpy all give the corresponding parts of that one matrix, eagerly loaded or memory-mapped. Slices share the buffers of the storage, while reconstructed rows and matrices are new arrays.",
 ["inputs", "configurations"],
 "For all quantizer shapes, with or without projection and norms, all index expressions, sequences of slices and output buffers.",
 "Tests use a single fixture without per-row norms and compare with a tolerance of 0.05.",
 ["storage/quantized.py"],
 [("PQ.reconstruct", "storage/quantized.py"), ("QuantizedArray.embedding, __getitem__, __iter__, __array__", "storage/quantized.py")],
 observe=["QuantizedArray, PQ.reconstruct"])

prop("C12", "Array storage and norms behave like the numpy array they wrap",
 "Array storage and norms, in memory or memory-mapped, give for every index expression, slice, chain of slices and iteration exactly the values of the underlying array; slices and iterated rows are views of it. Integer and list indexing of storage returns plain arrays, slicing returns storage (norms) again, and writing any such slice and loading it yields exactly the sliced rows. A memory-mapped storage is read-only and equal to the eagerly loaded one.",
 ["inputs", "configurations"],
 "For all shapes, layouts, index expressions, chains of slices, positions of the chunk in the file.",
 "Tests sample small matrices in memory; the mmap flag in the sliced-write test is always false.",
 ["storage/ndarray.py", "norms.py", "io.py"],
 [("NdArray.__getitem__, __iter__, mmap_chunk", "storage/ndarray.py"), ("Norms.__getitem__", "norms.py"), ("_serialize_array_as_le", "io.py")],
 observe=["NdArray, Norms, load_ndarray, load_norms"])

prop("C13", "Similarity queries return exactly the nearest words",
 "A similarity query for a word or a vector returns the known words with the highest dot product with the query vector, each with its dot product, in descending order and without repetition. Exactly min(k, eligible words) results are returned, where the query word or the skipped words are not eligible and skipped strings outside the vocabulary have no effect; the result is None only if the query word has no vector.",
 ["inputs", "configurations"],
 "For all embeddings (all vocab and storage types), query words known and unknown, query vectors, k from 0 to beyond the vocabulary size, skip sets.",
 "Tests query two words of one fixture with k far below the vocabulary size.",
 ["embeddings.py", "storage/quantized.py"],
 [("Embeddings._similarity partial sort and heap", "embeddings.py")],
 observe=["Embeddings.word_similarity, embedding_similarity"])

prop("C14", "Analogy queries rank words by closeness to b - a + c",
 "An analogy query for a, b, c returns the min(k, eligible) known words with the highest dot product with the L2-normalized vector b - a + c, with their dot products in descending order. By default a, b and c are not eligible; with an explicit skip set exactly the words in that set are not eligible. The result is None if and only if one of the three words has no vector.",
 ["inputs", "configurations"],
 "For all embeddings, known and unknown query words, repeated query words, k, skip sets.",
 "Tests use one fixture and six queries.",
 ["embeddings.py"],
 [("Embeddings.analogy, _similarity", "embeddings.py")],
 observe=["Embeddings.analogy"])

prop("C15", "Bucket-to-explicit conversion preserves all known vectors",
 "Converting bucket embeddings to explicit embeddings keeps the words, their order, vectors and norms, and gives every n-gram of every known word the vector of the bucket it hashes to; n-grams share an index exactly if they shared a bucket, indices are contiguous and every row belongs to a word or n-gram. Unknown words get the normalized sum of the vectors of those of their n-grams that occur in known words, the source embeddings are unchanged, metadata is dropped, and other vocabulary types raise TypeError.",
 ["inputs", "configurations"],
 "For all bucket and fastText vocabularies (any collisions, n-gram ranges, words too short for n-grams) and storage types.",
 "Tests convert two fixtures with two words.",
 ["embeddings.py", "vocab/subword.py", "subword/explicit_indexer.pyx"],
 [("_bucket_to_explicit", "vocab/subword.py"), ("Embeddings.bucket_to_explicit", "embeddings.py")],
 observe=["Embeddings.bucket_to_explicit, FinalfusionBucketVocab.to_explicit, FastTextVocab.to_explicit"])

prop("C16", "fastText models are read and written faithfully",
 "Loading a fastText model yields its words in order, its n-gram range and bucket count, its configuration as metadata, its bucket vectors unchanged, and for each word the L2-normalized mean of its own vector and all its n-gram vectors with the mean's norm stored as the norm. Writing embeddings with a fastText vocabulary restores the original word vectors and bucket vectors, so that the file parses completely (through the output matrix) as a fastText model and loads back to the same embeddings up to rounding; settings the embeddings do not hold get their documented default values. Unsupported models and vocabularies raise an exception.",
 ["inputs", "configurations"],
 "For all fastText models: words, ranges, bucket counts, collisions, words without n-grams, null vectors, with and without norms.",
 "Tests round-trip one fixture; a loader and writer that agree on the wrong computation pass.",
 ["compat/fasttext.py", "_util.py"],
 [("_read_ft_*, _precompute_word_vecs", "compat/fasttext.py"), ("_write_ft_*", "compat/fasttext.py"), ("_normalize_matrix", "_util.py")],
 observe=["load_fasttext, write_fasttext"])

prop("C17", "word2vec and text formats are read and written faithfully",
 "Loading word2vec, text or text-dims files yields the words in order, unit-length vectors and norms such that norm times vector is the vector in the file; null vectors stay null with norm zero. Writing in these formats emits every known word, in order, with its vector scaled by its norm if norms are present, in the documented layout, so that loading the output restores words, vectors and norms up to rounding. This holds for every word free of ASCII whitespace, including words with other Unicode whitespace and words that look like numbers, every vocabulary type and every storage type. Words that UTF-8 cannot hold make the write fail.",
 ["inputs", "configurations"],
 "For all words without ASCII whitespace, vectors, separators, norms present or absent, vocab and storage types.",
 "Tests round-trip one fixture of seven ASCII words per format.",
 ["compat/word2vec.py", "compat/text.py", "_util.py"],
 [("load_word2vec/write_word2vec", "compat/word2vec.py"), ("_load_text/_write_text", "compat/text.py"), ("_normalize_matrix", "_util.py")],
 observe=["load_word2vec, load_text, load_text_dims, write_word2vec, write_text, write_text_dims"])

prop("C18", "Malformed UTF-8 is rejected, or replaced only on request",
 "Loading a word2vec, text, text-dims or fastText file that contains a word with malformed UTF-8 raises UnicodeDecodeError by default. With the lossy option each malformed sequence is replaced by U+FFFD and all other words, their order and all vectors are unaffected; for well-formed files the lossy option changes nothing. The --lossy option of the programs has the same effect. finalfusion files with malformed UTF-8 in a word, an n-gram or the metadata are always refused by the functions that read that chunk.",
 ["inputs"],
 "For all placements and kinds of malformed sequences (truncated, overlong, surrogates, stray continuation bytes) in all four formats, and in the words, n-grams and metadata of finalfusion files.",
 "Tests use one word with one truncated sequence, and none for fastText.",
 ["compat/word2vec.py", "compat/text.py", "compat/fasttext.py", "vocab/vocab.py", "subword/explicit_indexer.pyx", "metadata.py", "scripts/util.py"],
 [("errors='replace' if lossy else 'strict'", "compat/*.py")],
 observe=["load_word2vec, load_text, load_text_dims, load_fasttext"])

prop("C19", "Queries have no side effects and do not interfere with each other",
 "Lookups, similarity and analogy queries, iteration, conversion and writing never change the embeddings they are called on: afterwards words, vectors, norms and metadata are what they were. Results already returned are not altered by later calls, computed vectors and reconstructed matrices belong to the caller and can be changed without any effect on the embeddings or later results, repeated calls give the same answer, and concurrent calls from several threads on shared embeddings give the same results as the same calls made one after another.",
 ["histories", "schedules"],
 "For all sequences of read-only operations on all vocab and storage types, and all interleavings of threads.",
 "Tests call each operation on fresh fixtures and never check the source object afterwards; none uses threads.",
 ["embeddings.py", "storage/quantized.py", "storage/ndarray.py", "vocab/subword.py", "compat/fasttext.py", "compat/word2vec.py", "compat/text.py"],
 [("arithmetic on fresh arrays in analogy/_embedding/reconstruct and the writers", "embeddings.py, storage/quantized.py, compat/*.py")],
 observe=["digest of the embeddings before and after each operation; digests of returned arrays; results under threads"])

prop("C20", "ffp-convert and ffp-bucket-to-explicit write what the library would",
 "ffp-convert with any supported pair of input and output formats, and ffp-bucket-to-explicit, produce a file that holds the embeddings of the input file: the same words in the same order with the same vectors and norms as far as the output format can represent them, and for finalfusion output also the same vocabulary and metadata. The lossy and mmap options have the effect documented for the loaders, and unsupported conversions fail with a non-zero exit status.",
 ["inputs", "configurations"],
 "For all combinations of input format, output format, vocab type, storage type, lossy, mmap.",
 "The integration scripts convert a few fixtures and compare with the library's own loaders.",
 ["scripts/convert.py", "scripts/bucket_to_explicit.py", "scripts/util.py"],
 [("Format.load, Format.write", "scripts/util.py")],
 observe=["output files and exit status of the commands"])

prop("C21", "ffp-select writes exactly the requested representable words",
 "ffp-select writes simple-vocabulary array embeddings that contain every distinct word of the word list that the source can represent, each with the vector the source gives for it (computed from n-grams if unknown), and no other words; the metadata names the source file and contains the source's metadata. If a word cannot be represented, it is reported and the command fails without writing an output, unless unknown words are ignored, in which case exactly those words are left out (and reported only with --verbose). A word list that is not UTF-8 is refused, or read with replacement characters if --lossy is given.",
 ["inputs", "configurations"],
 "For all source embeddings, word lists (duplicates, surrounding whitespace, inner spaces, unknown words), options and input formats.",
 "The integration script selects from two fixtures and never uses --ignore_unk.",
 ["scripts/select.py", "scripts/util.py"],
 [("main", "scripts/select.py")],
 observe=["output file, stderr and exit status of ffp-select"])

prop("C22", "ffp-similar and ffp-analogy print the library's query results",
 "For each input line ffp-similar prints the nearest neighbours of that word and ffp-analogy the answers to that analogy, one 'word similarity' line each in descending order, at most k of them, matching the library's query results. ffp-analogy excludes exactly those of the three query words that were not named with --include; queries without an answer are reported on stderr and do not stop later queries.",
 ["inputs", "configurations"],
 "For all embeddings and formats, sequences of query lines, k, every subset of includes, unknown words, blank lines (ffp-similar), file or standard input.",
 "The integration scripts run nine queries; the --include options tested leave one exclusion untested.",
 ["scripts/similar.py", "scripts/analogy.py", "scripts/util.py"],
 [("get_skips", "scripts/analogy.py"), ("main", "scripts/similar.py, scripts/analogy.py")],
 observe=["stdout, stderr and exit status of the commands"])

prop("C23", "Inconsistent components are rejected when they are combined",
 "Embeddings can only exist if the storage has exactly as many rows as the vocabulary has indices, norms have exactly one entry per word, and all components are of the right kind; otherwise construction or assignment raises and leaves existing embeddings unchanged. Vocabularies with duplicate words or the wrong indexer, n-gram indexers with duplicate n-grams, incomplete or gapped indices or an invalid n-gram range or bucket count, array storage or norms of wrong dimensionality or element type, and quantizer projections of the wrong shape are rejected, in memory and in files.",
 ["inputs", "configurations"],
 "For all combinations of components that violate at least one condition, and all that violate none (which must be accepted).",
 "Tests try a few single mismatches; boundary cases and combinations (norms vs. rows of subword embeddings, index maps with gaps) are not covered.",
 ["embeddings.py", "vocab/vocab.py", "vocab/subword.py", "subword/explicit_indexer.pyx", "subword/hash_indexers.pyx", "storage/ndarray.py", "storage/quantized.py", "norms.py"],
 [("Embeddings._check_requirements, _norms_compat", "embeddings.py"), ("_validate_items_and_create_index", "vocab/vocab.py"), ("constructor assertions", "subword/*.pyx, storage/*.py, norms.py")],
 observe=["constructors and setters"])

prop("C24", "Files that are not what they claim to be are rejected",
 "Loading a finalfusion file with wrong magic or version, unknown chunk identifiers, missing chunks, chunks in another order or role than the format prescribes, or other element types raises an exception, as does loading a fastText file with wrong magic or version or with unsupported features (labels, pruned vocabulary, quantized matrix). The contents are never interpreted as a different type or in a different role.",
 ["inputs"],
 "For all values of each of these fields other than the prescribed ones and all wrong chunk sequences, for the full loader and the single-chunk loaders.",
 "Tests only pass an unreadable path or standard stream; no field is ever corrupted.",
 ["io.py", "embeddings.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "compat/fasttext.py"],
 [("Header.read_chunk", "io.py"), ("TypeId checks", "storage/*.py, norms.py"), ("chunk dispatch", "embeddings.py"), ("_read_ft_header, _read_ft_vocab, _read_ft_storage", "compat/fasttext.py")],
 observe=["load_* functions on files with one corrupted field"])

prop("C25", "Files are released after use; memory-mapped data is mapped, not copied",
 "Every function that loads or writes a file has closed it when it returns or raises, and everything written is then visible in the file. Embeddings loaded eagerly no longer depend on the file: it can be changed, replaced or deleted without any effect on them. Loading with memory mapping (only when requested) maps the storage and neither the storage nor slices of it are copies, also for storages larger than 4 GiB; the mapping survives renaming or deleting the file and is released once the storage and all its slices are gone. Repeating any call with the same arguments accumulates neither memory nor descriptors nor mappings.",
 ["inputs", "histories", "configurations"],
 "For all loaders and writers, intact, damaged and unwritable files, eager and mmap, successful and failing calls, any number of repetitions, any storage size.",
 "Tests never look at descriptors or mappings, never change a file after loading it, and their files are a few kilobytes.",
 ["embeddings.py", "io.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "vocab/__init__.py", "vocab/simple_vocab.py", "vocab/subword.py", "compat/text.py", "compat/word2vec.py", "compat/fasttext.py"],
 [("with open(...) in all load and write functions", "**/*.py"), ("mmap_chunk", "storage/ndarray.py, storage/quantized.py")],
 observe=["/proc/self/fd and /proc/self/maps after each call", "loaded objects after the file changed", "address space limit", "live memory blocks"])

prop("C26", "No file content crashes or hangs a loader or yields an inconsistent object",
 "Whatever bytes a file contains, every loader either raises an ordinary exception or returns an object that is consistent in itself: distinct words found at their positions, all indices below the vocabulary's bound, as many rows as indices, one norm per word, every row readable with the declared number of dimensions (a quantized row whose code has no centroid may raise IndexError), and writable so that loading the written file gives the same object again. Loaders never crash or end the process and always terminate.",
 ["inputs", "fault_sequences"],
 "For all byte sequences: damaged files of all formats (flipped bits, replaced counts, removed, inserted, duplicated, swapped or spliced ranges), random bytes, wrong formats, directories and missing files, all loaders, eager and mmap, strict and lossy.",
 "Tests load intact fixtures only.",
 ["io.py", "embeddings.py", "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "compat/fasttext.py", "compat/word2vec.py", "compat/text.py"],
 [("_read_required_binary, _read_array_as_native, find_chunk", "io.py"), ("_read_items, _read_items_with_indices", "vocab/vocab.py"), ("_read_quantized_header", "storage/quantized.py")],
 observe=["load_* functions on damaged files under memory and CPU limits"])

prop("C27", "Results do not depend on the environment of the process",
 "The files the library writes, the objects it loads, the answers it gives and the conversions of ffp-convert are the same whatever the locale and its encoding, the encoding of the standard streams, the hash seed, the working directory (with relative paths), the umask, the time zone, numpy's print precision settings, Python's optimization or development mode, or whether standard input is open; and the library leaves such process-wide state (environment variables, working directory, locale, umask, random generators, numpy settings, warning filters, signal handlers, garbage collection) as it found it.",
 ["configurations", "inputs"],
 "For all valid calls and all combinations of these settings (numpy's legacy print mode and the text the query programs read and print excepted).",
 "The tests run in one environment, typically a UTF-8 locale.",
 ["compat/text.py", "compat/word2vec.py", "compat/fasttext.py", "embeddings.py", "vocab/subword.py", "metadata.py", "scripts/convert.py", "scripts/util.py"],
 [("open(..., encoding='utf8')", "compat/text.py"), ("str of components", "compat/text.py"), ("encode/decode('utf-8')", "vocab/*.py, metadata.py")],
 observe=["digests of one scenario run in separate processes with different environments"])

prop("C28", "Descriptive attributes agree with what an object holds",
 "At any time the attributes of embeddings, vocabularies, storages and norms describe their contents: dims, n_words, lengths, shapes, upper bounds (number of words plus number of subword indices), n-gram ranges, bucket counts, quantizer sizes, presence of norms and metadata, chunk identifiers, and the list of chunks in serialization order; textual representations state the same values. The origin is the path the embeddings were loaded from, '<memory>' for embeddings that were not loaded. This holds after construction with or without the documented default arguments, after loading any format, slicing, conversion, and accepted or refused assignment; dims, n_words, origin, vocab and storage cannot be assigned.",
 ["histories", "inputs", "configurations"],
 "For all objects reachable by sequences of construction, loading, slicing, assignment and conversion.",
 "Tests read few attributes of freshly loaded fixtures.",
 ["embeddings.py", "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "io.py", "subword/explicit_indexer.pyx", "subword/hash_indexers.pyx"],
 [("dims, n_words, origin, chunks", "embeddings.py"), ("upper_bound, min_n, max_n", "vocab/subword.py"), ("shape, quantized_len", "storage/quantized.py")],
 observe=["public attributes after each operation"])

prop("C29", "Chunks can be found, read and written one by one in an open file",
 "In an open finalfusion file, find_chunk with any set of identifiers leaves the file right behind the header of the first chunk of one of these kinds and returns its identifier, or returns None, whatever the position of the file was. Reading a chunk (read_chunk, load with or without mmap) gives exactly that chunk and leaves the file at its end, so that the next chunk can be read. write_chunk writes the complete chunk at the current position of the file, aligned for this position, changes no other byte and leaves the file behind it; Chunk.write makes a complete file with this one chunk, to which others can be appended.",
 ["inputs", "histories"],
 "For all sequences of chunks, all identifier sets, all positions (alignments) of the file, buffered and unbuffered files.",
 "Tests never use the chunk-level functions on files with several chunks or at other offsets.",
 ["io.py", "embeddings.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "vocab/simple_vocab.py", "vocab/subword.py"],
 [("find_chunk, Header, Chunk.write", "io.py"), ("read_chunk, mmap_chunk, write_chunk", "storage/*.py, vocab/*.py, norms.py, metadata.py"), ("_pad_float32", "io.py")],
 observe=["position of the file and its bytes around each call"])

prop("C30", "Files can be named in every documented way, to the same effect",
 "Every loader (of embeddings, vocabularies, storages, norms, metadata and of the word2vec, text and fastText formats; eager and memory-mapped) and every writer accepts the file as str, bytes, PathLike (giving str or bytes) or open file descriptor, absolute or relative to the working directory, through links, and with any name the file system allows, and does the same in each case: it loads equal objects from exactly the named file and writes identical bytes to exactly the named file and to no other. A memory-mapped object stays usable when the file is renamed or the working directory changes afterwards. Names of missing files, of directories or below files, and unusable descriptors raise OSError; what names no file raises; neither creates anything. ffp-convert takes the same names.",
 ["inputs", "configurations"],
 "For all ways of naming a file, all names, all loaders and writers, all contents, any working directory and files of the same name in it.",
 "Tests use str paths, and plain names, almost exclusively.",
 ["io.py", "embeddings.py", "vocab/__init__.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/__init__.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "compat/fasttext.py", "compat/word2vec.py", "compat/text.py", "scripts/convert.py"],
 [("open(file, ...) in load_* and write functions", "*.py, vocab/*.py, storage/*.py, compat/*.py"), ("np.memmap of the open file", "storage/ndarray.py, storage/quantized.py"), ("Chunk.write", "io.py")],
 observe=["load_* and write functions called with the same file named in different ways"])

prop("C31", "Copies and pickles are equal, independent objects that behave alike",
 "copy.copy, copy.deepcopy and pickling (any protocol, also to another process and back) of embeddings, however they came about (constructed, loaded eagerly or memory-mapped, from any format, after any queries), and of vocabularies, subword indexers, storages and their slices, product quantizers, norms, metadata and similarity results give an object of the same type and contents that compares equal where equality is defined, gives the same vectors and answers and writes the same file. Deep copies and unpickled objects are independent: changing one side in place, or the file behind a memory-mapped original, does not affect the other; assigning norms or metadata to a shallow copy leaves the original as it was. A forked process can use the embeddings as well, and neither process sees the other's changes.",
 ["inputs", "histories", "configurations"],
 "For all objects, all ways of copying, all origins of the object, all changes afterwards.",
 "The tests never copy or pickle anything.",
 ["embeddings.py", "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "subword/explicit_indexer.pyx", "subword/hash_indexers.pyx"],
 [("instance state of Embeddings, vocabularies and QuantizedArray", "embeddings.py, vocab/*.py, storage/quantized.py"), ("extension types with C members", "subword/*.pyx"), ("ndarray and dict subclasses", "storage/ndarray.py, norms.py, metadata.py")],
 observe=["copies and originals before and after changes", "answers and files of other processes"])

prop("C32", "Failed and short reads never go unnoticed",
 "If a read or a mapping of the file fails at any point of a load (input/output error, stale handle, out of memory), in any loader and mode, the load raises, unless what it returns equals the contents of the file nevertheless. Reads that return less than was asked for, and reads interrupted by signals, have no influence on the result, however small the pieces are. Loading the file after a failed load gives its contents. Programs whose input or word list cannot be read do not report success with another result than they have for the complete input.",
 ["fault_sequences", "inputs"],
 "For all formats, parts, contents, sizes of pieces, kinds of errors and positions of the failing read call (single or from there on).",
 "Test files are read from a file system that never fails.",
 ["io.py", "embeddings.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "compat/fasttext.py", "compat/word2vec.py", "compat/text.py", "scripts/util.py"],
 [("_read_required_binary, _read_binary, find_chunk", "io.py"), ("np.fromfile and np.memmap with length checks", "storage/*.py, norms.py, compat/*.py"), ("line iteration", "compat/text.py, scripts/*.py")],
 observe=["read, pread, fread and mmap calls on the loaded file", "results of the loads"])

prop("C33", "Loading and writing in several threads or several open files do not interfere",
 "Any number of loads (of the same or different files, in any format, whole or single parts, eager or memory-mapped), writes (of the same or different objects, in any format, each to its own file) and conversions may run in different threads at the same time: each gives the object, or the file, that it gives when it runs alone, and none fails. Several open files, or one file opened several times, can be read and written chunk by chunk in any order with the same result as one after the other.",
 ["schedules", "inputs", "histories"],
 "For all interleavings of the calls, all contents, all formats.",
 "Tests load and write one file at a time in one thread.",
 ["io.py", "embeddings.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "compat/fasttext.py", "compat/word2vec.py", "compat/text.py"],
 [("read and write functions without shared state", "io.py, storage/*.py, vocab/*.py, compat/*.py"), ("bucket_to_explicit", "embeddings.py")],
 observe=["results and files of calls in threads that are switched at chosen source lines, or preempted by the interpreter"])

prop("C34", "A call that is interrupted anywhere has no lasting effect",
 "If a query, a lookup, a conversion, a load or a write is interrupted at any point by KeyboardInterrupt or another exception (a time limit in the caller's program, MemoryError), the exception reaches the caller, the embeddings and the arguments are as they were before the call, process-wide state is unchanged, no file stays open or mapped once the exception is gone, and the same call and all others give the right results afterwards. An interrupted assignment of norms or metadata has taken effect completely or not at all. Files that are only read are not changed. The programs, interrupted anywhere, do not report success with another result, and can be run again.",
 ["crash_points", "histories", "inputs"],
 "For all calls, all points of interruption in the library's own code (Python source lines, except in clean-up code: finally blocks, exception handlers, the end of with statements), all kinds of exceptions, any later use.",
 "Tests never interrupt a call.",
 ["embeddings.py", "io.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "compat/fasttext.py", "compat/word2vec.py", "compat/text.py", "scripts/convert.py", "scripts/similar.py", "scripts/select.py", "scripts/analogy.py", "scripts/bucket_to_explicit.py"],
 [("queries compute in local state", "embeddings.py"), ("setters check before they assign", "embeddings.py"), ("with open(...)", "*.py")],
 observe=["state of the embeddings, the process and its files after an exception raised at a chosen line of library code"])

prop("C35", "What a call costs is bounded by what it concerns",
 "Looking up a word or a subword, membership, indexing single rows or short slices, attributes and the start of an iteration take an amount of memory and time that does not grow with the number of words, n-grams or rows of the embeddings, in memory, loaded or memory-mapped, with any vocabulary and storage. Loading one part of a file reads and allocates in proportion to this part and not to the other ones; memory-mapping neither reads nor allocates the matrix. Loading, writing, constructing, converting, iterating and similarity queries, and the n-grams of a word, take time in proportion to their size, not to its square.",
 ["inputs", "configurations"],
 "For all vocabulary and storage types, origins and sizes (constant factors and numpy's own costs left aside).",
 "Tests use tiny embeddings and measure nothing.",
 ["embeddings.py", "vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py", "io.py", "compat/fasttext.py", "compat/word2vec.py", "compat/text.py", "subword/explicit_indexer.pyx", "subword/hash_indexers.pyx", "scripts/select.py", "scripts/convert.py"],
 [("dictionary lookups", "vocab/vocab.py"), ("seek over other chunks", "io.py"), ("np.memmap", "storage/*.py"), ("lazy iteration", "storage/quantized.py, embeddings.py")],
 observe=["allocations, bytes read and CPU time of calls on small and large embeddings"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
