"""What each check decides, by what means (MANIFEST.json is made from this)."""
META = {}
WAYS = ["str", "bytes", "Path", "PurePath", "PathLike of str", "PathLike of bytes", "subclass of str", "name in the working directory",
        "bytes name in the working directory", "relative path", "relative Path", "relative bytes", "./ path", "path with ..",
        "path with //", "Path in the working directory", "path through a linked directory and ..", "descriptor 0", "descriptor", "descriptor opened in the working directory"]


def prop(pid, level, technique, note, rule, required, build="plain", assumptions=()):
    META[pid] = dict(level=level, technique=technique, note=note, rule=rule, required=list(required), build=build,
                     assumptions=list(assumptions))


prop("C01", "exploration", "runtime oracle monitor on write/load round trips",
     "", "One case = one generated embeddings object (vocab type, words, storage, layout, optional parts) driven through write, eager "
     "and mmap load and rewrite. Distinct = different (words, types, shapes, optional parts); all cases are non-trivial as both loads and "
     "rewritten bytes are compared with the generated values.",
     ["Embeddings.write", "load_finalfusion", "load_finalfusion mmap", "Embeddings.write of loaded", "single vocab",
      "single storage", "single norms", "single metadata", "large round trip", "assigned parts written"])
prop("C02", "exploration", "runtime monitor: independent strict parser/writer against files written/loaded", "",
     "One case = one embeddings object or file; distinct by contents. The monitor parses each written file with an independent strict "
     "parser, or loads an independently written file, and compares with the generated values.",
     ["files parsed by the reference", "foreign file loaded", "norms not announced in header"])
prop("C03", "exploration", "runtime oracle monitor on single-chunk loaders", "",
     "One case = one file with a sequence of chunks, probed with all ten loader functions; distinct by chunk sequence and size.",
     ["files probed", "absent chunk reported", "library files probed", "appended chunks probed", "skipped explicit",
      "skipped pq", "skipped nd", "skipped norms", "skipped meta", "big chunks skipped"])
prop("C04", "fault_enumeration", "crash-point enumeration with an equality monitor on what is loaded", "",
     "One case = one file; every byte position (small files) or the positions around chunk, buffer and element boundaries plus random ones "
     "(large files) is a cut, loaded with all loaders. Distinct = (file, cut position).",
     ["cut positions", "loads of truncated files refused", "loads of truncated files giving complete parts", "large truncated files"])
prop("C05", "fault_enumeration", "crash-point and malformed-line enumeration with a refusal monitor", "",
     "One case = one file of one format; every byte position is a cut (all cuts of small files), or one line is made ragged. "
     "Distinct = (file, cut position) or (kind of damage, row, shape).",
     ["incomplete file refused", "word2vec cut positions", "fastText cut positions", "text cut positions",
      "text-dims cut positions", "ragged text files", "miscounted text-dims files", "large files cut", "word2vec miscounted"])
prop("C06", "fault_enumeration", "write-fault injection (RLIMIT_FSIZE at every byte, /dev/full, LD_PRELOADed short and failing write calls) with a completeness monitor", "",
     "One case = one output operation; it is repeated with a file size limit at every byte (small files) or at buffer boundaries and "
     "random positions (large files), or with single write calls shortened or failing. Distinct = (operation, limit or fault).",
     ["byte limits tried", "failed writes reported", "writes reported as successful under a limit", "full device reported",
      "failing commands reported", "write target fifu", "write target word2vec", "write target text", "write target textdims",
      "write target fasttext"])
prop("C07", "exploration", "runtime oracle monitor on lookups against an independent float64 model", "",
     "One case = one embeddings object with about ten queries through every lookup function. Distinct = (kind of query, vocabulary and "
     "storage type, norms, word, dimensions).",
     ["lookups known", "lookups oov", "lookups none", "buffers filled", "defaults returned", "null sums", "exactly null sums",
      "unknown words with a direction", "iterated words", "long unknown words", "embeddings memory", "embeddings eager", "embeddings mmap"])
prop("C08", "exploration", "runtime oracle monitor on vocabularies against an independent model", "",
     "One case = one vocabulary (constructed or loaded) with all its words and about ten other strings queried. Distinct = (vocabulary "
     "type and range, query) and (vocabulary, variant).",
     ["queries known", "queries n-grams", "queries none", "variants not confused", "different vocabularies told apart",
      "loaded vocabularies", "large vocabularies", "vocab simple", "vocab ff", "vocab ft", "vocab explicit"])
prop("C09", "exploration", "runtime differential monitor against a reference implementation of the published algorithms", "",
     "One case = 6 to 20 strings with n-gram ranges, bucket counts and offsets, or a block of code points. Distinct = (indexer, string, "
     "range, bracketing, offset, bound).",
     ["strings extracted", "n-grams compared", "default ranges", "finalfusion strings", "fastText strings", "explicit strings",
      "default indexers", "long strings", "code points"])
prop("C10", "exploration", "AddressSanitizer + UndefinedBehaviorSanitizer build of the native modules, live-byte leak monitor, refusal monitor", "",
     "One case = a dozen native calls on generated strings and parameters, one string size with all ranges around it, all invalid "
     "arguments, one call kind under the leak monitor, or shared indexers in four threads. Distinct = (string, range, bracketing), "
     "(argument, refusal), call kind.",
     ["native calls", "string sizes", "huge strings", "invalid arguments refused", "failed re-initializations",
      "call kinds monitored for leaks", "concurrent calls"], build="asan")
prop("C11", "exploration", "runtime oracle monitor: independent float64 reconstruction against every access path", "",
     "One case = one quantized storage (in memory, loaded, memory-mapped, sliced up to three times) with random keys, slices, buffers, "
     "iteration and conversion. Distinct = (origin and chain of slices, key, shape).",
     ["indices int", "indices list", "indices ndarray", "slices", "iterated rows", "conversions", "loaded mmap=False", "loaded mmap=True",
      "slices written", "quantizers", "big storages", "projection=True norms=True", "projection=True norms=False",
      "projection=False norms=True", "projection=False norms=False"])
prop("C12", "exploration", "runtime differential monitor against plain numpy arrays, bit-exact", "",
     "One case = one array storage or norms (in memory, loaded, memory-mapped, sliced up to three times) with random index expressions, "
     "compared with numpy. Distinct = (origin and chain of slices, key, shape).",
     ["storage indices int", "storage indices list", "storage indices ndarray", "other storage indices", "storage slices", "norms slices",
      "norms indices", "iterated rows", "loaded mmap=False", "loaded mmap=True", "memory-mapped storage refuses assignment",
      "slices written", "big storages"])
prop("C13", "exploration", "runtime oracle monitor: float64 brute-force ranking with error bounds", "",
     "One case = one embeddings object with about six queries, each result list judged for count, eligibility, similarity values, order and "
     "completeness. Distinct = (query, k, vocabulary size, skips).",
     ["results judged", "rankings with left out words", "fewer eligible words than k", "queries without a vector", "known query words",
      "unknown query words", "default k", "vector queries", "skipped words", "skipped strings outside the vocabulary",
      "large vocabularies"])
prop("C14", "exploration", "runtime oracle monitor: float64 brute-force ranking with error bounds", "",
     "One case = one embeddings object with about six analogies, each result list judged for count, eligibility, similarity values, order "
     "and completeness. Distinct = (a, b, c, k, skip set, vocabulary size).",
     ["queries judged", "default skip", "explicit skip", "queries without an answer", "repeated query words", "queries with a null target",
      "planted analogies", "results judged", "rankings with left out words", "large vocabularies"])
prop("C15", "exploration", "runtime oracle monitor: relation between source and converted embeddings", "",
     "One case = one bucket vocabulary or embeddings object converted; words, n-gram table, sharing, every row, unknown words and the "
     "source are compared. Distinct = (words, n-gram range, buckets, shape).",
     ["conversions", "n-grams converted", "shared buckets", "unknown words looked up", "unknown words without known n-grams",
      "conversions written and loaded", "vocabularies converted", "other vocabularies refused", "large conversions"])
prop("C16", "exploration", "runtime differential monitor against an independent fastText reader, writer and float64 model", "",
     "One case = one generated fastText model loaded, or embeddings written and parsed, or a round trip. Distinct = (configuration, words).",
     ["models loaded", "words of loaded models", "null word vectors", "unknown words", "models written", "round trips of embeddings",
      "round trips of models", "unsupported models refused", "unsupported vocabularies refused", "large models",
      "storage nd norms=True", "storage nd norms=False", "storage pq norms=True", "storage pq norms=False"])
prop("C17", "exploration", "runtime differential monitor against independent word2vec/text readers and writers", "",
     "One case = one file loaded or one embeddings object written, parsed by the reference and loaded again. Distinct = (format, words, "
     "storage, norms, shape) or (format, values).",
     ["word2vec files loaded", "text files loaded", "text-dims files loaded", "vectors loaded", "null vectors loaded", "word2vec files written",
      "text files written", "textdims files written", "word2vec round trips", "text round trips", "textdims round trips", "exact outputs",
      "words with other whitespace", "values written exactly", "other separators", "large files"])
prop("C18", "exploration", "runtime refusal and equality monitor on files with malformed UTF-8", "",
     "One case = one file of one of four formats with malformed or unusual well-formed words, loaded strictly and lossily, or 24 byte "
     "sequences. Distinct = (format, words).",
     ["malformed words refused", "malformed word2vec files", "malformed text files", "malformed textdims files", "malformed fasttext files",
      "well-formed word2vec files", "well-formed text files", "well-formed textdims files", "well-formed fasttext files",
      "malformed sequences", "large malformed files", "malformed finalfusion word", "malformed finalfusion ngram",
      "malformed finalfusion meta"] + [f"lossy conversions from {k}" for k in ("word2vec", "text", "textdims", "fasttext")])
prop("C19", "exploration", "state-digest monitor before/after every call, result-aliasing monitor, concurrent-vs-sequential trace checker", "",
     "One case = a history of 28 operations on one object with the full state compared after each, or 2 to 6 threads running 36 calls each "
     "under a 1 us switch interval, or 2 to 3 threads switched at randomly chosen source lines. Distinct = (sequence of operations, types) and distinct observed interleavings (thread, call).",
     ["operations without effect", "repeated calls", "results kept", "vectors of unknown words owned by the caller",
      "buffers owned by the caller", "conversions owned by the caller", "concurrent calls", "observed thread switches between calls",
      "interleaved calls", "switches at chosen lines", "calls inside of a call",
      "independent loads", "op analogy", "op word_similarity", "op write", "op write_fasttext", "op bucket_to_explicit", "op embedding out",
      "op write_text", "op write_word2vec"])
prop("C20", "exploration", "runtime differential monitor: command outputs against independent readers, memory-map audit hook", "",
     "One case = one run of ffp-convert (25 format pairs in turn, options, in process or as a subprocess) or ffp-bucket-to-explicit with "
     "its output parsed by the reference. Distinct = (formats, options, input).",
     [f"converted {a} to {b}" for a in ("word2vec", "finalfusion", "fasttext", "text", "textdims")
      for b in ("word2vec", "finalfusion", "text", "textdims")] +
     ["converted fasttext to fasttext", "converted finalfusion to fasttext", "unsupported conversions refused", "processes",
      "lossy conversions", "lossy ffp-bucket-to-explicit", "ffp-bucket-to-explicit from finalfusion", "ffp-bucket-to-explicit from fasttext", "wrong formats refused",
      "memory-mapped sources", "outputs replaced"])
prop("C21", "exploration", "runtime oracle monitor on the outputs of the command", "",
     "One case = one run of ffp-select on a generated source of one of five formats and a word list with known, unknown, repeated and "
     "unrepresentable words. Distinct = (word list, source words, options).",
     ["selections", "failed selections", "known words selected", "unknown words selected", "words left out", "repeated lines",
      "word lists on stdin", "selections with words left out", "empty selections", "source metadata", "skipped words reported",
      "processes", "long lists"])
prop("C22", "exploration", "runtime oracle monitor on the printed answers: float64 brute-force ranking with error bounds", "",
     "One case = one run of ffp-similar or ffp-analogy with several queries, every printed line judged. Distinct = (query, k, options, words).",
     ["similarity queries answered", "queries without an answer", "analogies answered", "analogies without an answer", "queries on stdin",
      "answers beside unanswered queries", "processes", "include none", "include a", "include b", "include c", "include ab", "include ac",
      "include bc", "include abc", "results judged", "rankings with left out words"])
prop("C23", "exploration", "runtime refusal monitor with state snapshots around every refused operation", "",
     "One case = one consistent object and all its inconsistent neighbours, in memory, by assignment, or in files. Distinct = (words, shapes, tables).",
     ["inconsistencies refused", "consistent embeddings accepted", "row counts refused", "norm counts refused", "kinds refused",
      "assignments refused", "assignments accepted", "vocabularies refused", "indexers refused", "indices refused", "ranges refused",
      "arrays refused", "projections refused", "files refused", "n-gram tables refused", "other formats refused"])
prop("C24", "exploration", "runtime refusal monitor on single-field corruptions of files from the reference writer", "",
     "One case = one intact file (accepted and compared) and several files derived from it by changing the magic, version, an identifier, "
     "the order or an element type. Distinct = (corruption, file).",
     ["files refused", "intact files accepted", "wrong magic", "wrong version", "unknown identifiers", "wrong roles", "wrong orders",
      "wrong types nd", "wrong types pq", "wrong types norms", "intact models accepted", "fastText files refused", "fastText headers",
      "labels", "pruned vocabularies", "quantized models", "foreign files refused"])
prop("C25", "exploration", "descriptor and mapping monitor (/proc/self/fd, /proc/self/maps) around every call, address-space limit, file-change injection", "",
     "One case = a dozen load or write calls on intact, damaged or unwritable files with the descriptors and mappings of the process inspected "
     "after each, one loaded object whose file is then changed, or one storage of more than 4 GiB. Distinct = (function, mode, outcome, file).",
     ["calls observed", "failed loads observed", "successful loads observed", "mappings observed", "mappings released",
      "successful writes observed", "failed writes observed", "files deleted eager", "files deleted mmap", "files replaced eager",
      "files replaced mmap", "files overwritten eager", "files truncated eager", "repeated load", "repeated mmap", "repeated lookup"])
prop("C26", "exploration", "file fuzzing under memory and CPU limits with a consistency monitor on whatever is loaded", "",
     "One case = several damaged or random files, each given to several loaders. Distinct = (loader, contents) for accepted and (loader, "
     "error) for refused contents.",
     ["contents refused", "contents accepted", "vocabularies judged", "storages judged", "embeddings judged", "objects written and loaded",
      "other paths refused", "counts replaced"])
prop("C27", "exploration", "differential trace monitor: digests of the same scenario in separately started processes with different environments", "",
     "One case = one scenario (about 40 observations: files written in all formats, objects loaded, queries, conversions) run in the "
     "reference environment and in three others. Distinct = (scenario, environment).",
     ["observations compared", "environment C locale", "environment POSIX locale, ASCII streams", "environment hash seed 0",
      "environment relative paths", "environment development mode", "environment optimized", "environment print options"])
prop("C28", "exploration", "runtime invariant monitor on the attributes of every object reached by random operation histories", "",
     "One case = a history of constructions, loads, assignments, slices and conversions with all attributes judged after each step, or files "
     "of the other formats, or the documented defaults. Distinct = (history, types, shapes).",
     ["embeddings described", "vocabularies described", "storages described", "slices described", "conversions described", "defaults described",
      "word2vec files described", "text files described", "textdims files described", "fastText files described"])
prop("C29", "exploration", "runtime oracle monitor: file positions and bytes around every chunk-level call", "",
     "One case = one open file with a sequence of chunks found and read, or written at an arbitrary offset into other data, with position and "
     "bytes compared with an independent writer. Distinct = (chunk sequence, offset, identifiers sought).",
     ["chunks found", "absent chunks not found", "headers read", "headers written", "single chunks"] +
     [f"chunks read {k}" for k in ("simple", "ff", "ft", "explicit", "nd", "pq", "norms", "meta", "nd mmap", "pq mmap")] +
     [f"chunks written {k}" for k in ("simple", "ff", "ft", "explicit", "nd", "pq", "norms", "meta")] +
     [f"chunks written at offset {i} modulo 4" for i in range(4)])
prop("C30", "exploration", "differential trace monitor: the same call with the file given in every documented way", "",
     "One case = one file loaded, or one object written, six times with the file named in different ways (and unusual names, working "
     "directories, links), compared with a plain path; or names that must be refused. Distinct = (function, way, name, contents).",
     [f"loaded by {w}" for w in WAYS] + [f"written by {w}" for w in WAYS] + ["mapped files renamed", "links followed", "refused missing",
      "refused directory", "things that name no file refused", "refused to write to directory", "conversions of unusual names",
      "calls of load_finalfusion mmap", "calls of load_storage mmap", "calls of load_vocab", "calls of load_norms", "calls of load_metadata"])
prop("C31", "exploration", "runtime oracle monitor: copies judged against the model, independence by changing one side and watching the other", "",
     "One case = one copy or pickle of embeddings (made in memory, loaded eagerly, mapped, or from another format) or of a part, judged "
     "against the model and the original, then one side changed; or embeddings sent to another process. Distinct = (way, origin, contents).",
     [f"copies of {k}" for k in ("vocab", "storage", "norms", "metadata", "indexer", "pq", "slice", "result")] +
     [f"{w} of embeddings {h}" for w in ("deepcopy", "pickle 2", "pickle 4", "pickle 5") for h in ("memory", "eager", "mmap", "other")] +
     ["copy of embeddings assigned to", "copies of mapped embeddings whose file changed", "embeddings sent to another process",
      "embeddings used in a forked process", "answers compared", "files compared", "changed norms", "changed metadata", "changed storage",
      "changed ngrams"])

prop("C32", "fault_enumeration", "read-fault injection (LD_PRELOADed read, pread, fread and mmap calls of the loaded file fail or are shortened) with a raise-or-equal monitor", "",
     "One case = one load (or run of a program) repeated with a fault in each of its read calls, or with all data arriving in small "
     "pieces. Distinct = (case, call, fault).",
     ["reads observed", "injected EIO", "injected short", "injected EINTR", "failed reads reported", "faults survived with the right result",
      "loads in small pieces", "short reads", "failing programs reported", "subject fifu mmap=False", "subject fifu mmap=True",
      "subject chunk vocab", "subject chunk storage", "subject chunk norms", "subject chunk metadata", "subject word2vec", "subject text",
      "subject textdims", "subject fasttext", "program convert", "program explicit", "program select", "program similar", "program analogy"])

prop("C33", "exploration", "schedule exploration: loads, writes and conversions in threads interleaved line by line, compared with the same calls alone", "",
     "One case = two to four threads with one to three calls each (loads of shared files, writes of shared objects) under a random schedule "
     "at the granularity of source lines or under the interpreter's preemption, or several open files read and written chunk by chunk in "
     "turn; every result compared with the same call made alone. Distinct = schedule (sequence of switches with the line each happened at).",
     [f"{h}: {k}" for h in ("interleaved by line", "preempted") for k in ("load", "write", "convert")] +
     ["line events", "thread switches", "calls inside of a call", "chunks read in turn", "chunks written in turn"])

prop("C34", "fault_enumeration", "fault injection: an exception raised at a chosen source line of a running call, with a state monitor on everything that survives", "",
     "One case = some calls, each repeated with an exception raised at the first, the last and another occurrence of every line of library "
     "code it reaches (a sample of them in quick runs). Distinct = (call, line, exception).",
     ["interrupted calls", "interrupted by KeyboardInterrupt", "interrupted by MemoryError", "interrupted by Stop", "interrupted assignments",
      "interrupted loads", "interrupted programs", "interrupted word_similarity", "interrupted analogy", "interrupted embedding",
      "interrupted bucket_to_explicit", "interrupted write", "interrupted write_fasttext", "subject all", "subject vocab", "subject word2vec",
      "subject text", "subject fasttext"] + [f"program {k}" for k in ("convert", "bucket_to_explicit", "select", "similar", "analogy")])

prop("C35", "exploration", "resource monitor: allocations (tracemalloc), bytes read (/proc/self/io) and CPU time of calls on small and large embeddings", "",
     "One case = all lookups in embeddings of 300 and of 40000 words, or all loads of a file with one large part, or one operation on the whole "
     "at two sizes. Distinct = (operation, vocabulary, storage, origin).",
     ["allocations observed", "times compared", "large storage", "large vocab", "large metadata", "long words", "costs of load_vocab",
      "costs of load_storage mmap", "costs of load_finalfusion mmap", "costs of load_norms", "costs of load_metadata"] +
     [f"op {k}" for k in ("indexing", "embedding", "embedding unknown", "membership", "no member", "vocab idx", "storage row", "subword_indices")] +
     [f"scaling {k}" for k in ("write", "load", "mmap", "word2vec", "text", "textdims", "fasttext", "vocab", "explicit", "indexer", "iterate",
                               "similar", "analogy", "vocab equality", "convert", "select", "embedding_similarity")])

META["C06"]["shim"] = META["C32"]["shim"] = True
