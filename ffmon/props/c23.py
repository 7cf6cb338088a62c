"""C23: inconsistent components are rejected."""
import struct
import types

import numpy as np
import toml

from finalfusion.embeddings import Embeddings
from finalfusion.metadata import Metadata
from finalfusion.norms import Norms
from finalfusion.compat import load_fasttext, load_text, load_text_dims, load_word2vec
from finalfusion.storage import NdArray
from finalfusion.storage.quantized import PQ, QuantizedArray
from finalfusion.subword import ExplicitIndexer, FastTextIndexer, FinalfusionHashIndexer
from finalfusion.vocab import SimpleVocab

from ffmon import gen, lib, ref
from ffmon.ref import E, S, V


def refused(t, fn, *msg):
    t.raises(Exception, fn, *msg)
    t.event("inconsistencies refused")


def other_rows(r, v):
    """Row counts that do not fit the vocabulary."""
    n = v.upper()
    c = {n - 1, n + 1, 0, 1, len(v.words), v.n_sub() if v.kind != "simple" else n + 2, 2 * n, n + len(v.words), n + 3}
    c = [x for x in c if x >= 0 and x != n]
    return sorted(c)


def other_norms(e):
    n = len(e.vocab.words)
    c = {n - 1, n + 1, 0, 1, e.vocab.upper(), e.vocab.upper() - n, e.storage.shape[1], 2 * n}
    return sorted(x for x in c if x >= 0 and x != n)


WRONG_STORAGE = [None, [[1.0, 2.0]], "storage", 3, np.zeros((2, 3), np.float32)]


class Duck:
    """Has everything a vocabulary has, but is none."""
    def __init__(self, v):
        self._v = v

    def __getattr__(self, name):
        return getattr(self._v, name)

    def __len__(self):
        return len(self._v)

    def __getitem__(self, w):
        return self._v[w]


def construct(t, r):
    e = gen.embeddings(r, hi=10, max_sub=40)
    t.note(gen.describe(e))
    t.sample(**gen.describe(e))
    v, d = lib.vocab(e.vocab), e.storage.shape[1]
    norms = None if e.norms is None else Norms(e.norms)
    meta = None if e.meta is None else Metadata(e.meta)
    ok = Embeddings(lib.storage(e.storage), v, norms, meta)
    lib.check_embeddings(t, ok, e, "consistent embeddings", meta="raw")
    t.event("consistent embeddings accepted")
    for n in other_rows(r, e.vocab):
        s = gen.storage(r, n, e.storage.kind)
        refused(t, lambda: Embeddings(lib.storage(s), v, None, meta), f"{e.vocab.kind} vocabulary with {e.vocab.upper()} indices, {n} rows")
        t.event("row counts refused")
        if n >= len(e.vocab.words):
            refused(t, lambda: Embeddings(storage=lib.storage(s), vocab=v, norms=Norms(gen.norms(r, len(e.vocab.words)))),
                    f"{e.vocab.upper()} indices, {n} rows, with norms")
    for n in other_norms(e):
        x = Norms(gen.norms(r, n))
        refused(t, lambda: Embeddings(lib.storage(e.storage), v, x, meta), f"{len(e.vocab.words)} words, {n} norms")
        t.event("norm counts refused")
    for w in WRONG_STORAGE + [np.zeros((e.vocab.upper(), d), np.float32), v]:
        refused(t, lambda: Embeddings(w, v), "storage", type(w))
    duck = types.SimpleNamespace(words=v.words, word_index=v.word_index, upper_bound=v.upper_bound, idx=v.idx)
    for w in [None, list(e.vocab.words), dict(e.vocab.index), "vocab", tuple(e.vocab.words), ok, duck, Duck(v)]:
        refused(t, lambda: Embeddings(lib.storage(e.storage), w), "vocabulary", type(w))
    n = len(e.vocab.words)
    for w in [gen.norms(r, n), list(gen.norms(r, n)), "norms", 1.0, NdArray(np.zeros((n, 1), np.float32)), gen.norms(r, n).astype(np.float64)]:
        refused(t, lambda: Embeddings(lib.storage(e.storage), v, w), "norms", type(w))
    for w in [{}, {"a": 1}, "metadata", [1], 0, False, [], ""]:
        refused(t, lambda: Embeddings(lib.storage(e.storage), v, norms, w), "metadata", type(w))
    t.event("kinds refused")
    t.sig(e.vocab.kind, e.vocab.words, e.storage.shape)


def assign(t, r):
    e = gen.embeddings(r, hi=10, max_sub=40)
    emb = lib.embeddings(e, r)
    if r.p(0.4):
        p = t.path()
        emb.write(p)
        emb = lib.load_finalfusion(p, mmap=r.p(0.5))
        if e.meta is not None:
            e.meta = lib.toml_meta(e.meta)
    t.note(gen.describe(e))
    n = len(e.vocab.words)
    before = lib.snapshot(emb)

    def bad(attr, w, *msg):
        refused(t, lambda: setattr(emb, attr, w), "assigning", attr, *msg)
        t.check(lib.snapshot(emb) == before, "a refused assignment of", attr, *msg, "changed the embeddings")
        t.event("assignments refused")

    for k in other_norms(e):
        bad("norms", Norms(gen.norms(r, k)), f"{k} norms for {n} words")
    for w in [gen.norms(r, n), list(gen.norms(r, n)), tuple(), "norms", 1.0, np.float32(1), np.zeros((n, 1), np.float32), 0, False, []]:
        bad("norms", w, type(w))
    for w in [{}, {"a": 1}, "x", [("a", 1)], 0, False, (), ""]:
        bad("metadata", w, type(w))
    # assignments that fit
    nn = gen.norms(r, n)
    emb.norms = Norms(nn.copy())
    lib.check_norms(t, emb.norms, nn, "assigned norms")
    m = gen.meta(r)
    emb.metadata = Metadata(m)
    lib.check_meta(t, emb.metadata, m, "assigned metadata")
    lib.check_embeddings(t, emb, E(e.vocab, e.storage, nn, m), "after assignments", meta="raw")
    before = lib.snapshot(emb)
    for k in other_norms(e):
        bad("norms", Norms(gen.norms(r, k)), f"{k} norms for {n} words")
    bad("metadata", dict(m), "dict")
    if r.p(0.5):
        emb.norms = None
        t.check(emb.norms is None, "norms removed")
    if r.p(0.5):
        emb.metadata = None
        t.check(emb.metadata is None, "metadata removed")
    t.event("assignments accepted")
    t.sig("assign", e.vocab.words, e.storage.shape)


def dup(r, ws):
    """The words with one of them repeated somewhere."""
    ws = list(ws)
    ws.insert(r.randrange(len(ws) + 1), r.choice(ws))
    return ws


def vocabularies(t, r):
    ws = gen.some_words(r, lo=1, hi=12)
    bad = dup(r, ws)
    ff, ft = FinalfusionHashIndexer(5, 3, 4), FastTextIndexer(11, 3, 4)
    ex = ExplicitIndexer(["abc", "bcd"], 3, 4)
    ix = dict(ff=ff, ft=ft, explicit=ex)
    t.note("words", bad)
    refused(t, lambda: SimpleVocab(bad), "duplicate words", bad)
    t.eq(list(SimpleVocab(ws).words), ws, "words")
    for k in ("ff", "ft", "explicit"):
        cls = lib.VCLS[k]
        refused(t, lambda: cls(bad, ix[k]), k, "duplicate words", bad)
        t.eq(list(cls(ws, ix[k]).words), ws, "words")
        for w in [x for n, x in ix.items() if n != k] + ([None] if k == "explicit" else []) + ["indexer", 5, SimpleVocab(ws), FinalfusionHashIndexer
                                                                                               if k != "ff" else FastTextIndexer]:
            refused(t, lambda: cls(ws, w), k, "vocabulary with indexer", w)
            t.event("indexers refused")
    t.event("vocabularies refused")
    t.sig("vocab", bad)


def indexers(t, r):
    grams = gen.words(r, r.randint(2, 12), maxlen=6)
    n = len(grams)
    lo = r.randint(1, 5)
    hi = lo + r.randint(0, 3)
    m = r.randint(1, n)
    vals = list(range(m)) + [r.randrange(m) for _ in range(n - m)]
    r.shuffle(vals)
    index = dict(zip(grams, vals))
    t.note("n-grams", grams, index, lo, hi)
    ok = ExplicitIndexer(list(grams), lo, hi, dict(index))
    t.eq((list(ok.ngrams), dict(ok.ngram_index), ok.upper_bound), (grams, index, m), "indexer")
    ExplicitIndexer(list(grams), lo, hi)
    b = dup(r, grams)
    refused(t, lambda: ExplicitIndexer(b, lo, hi), "duplicate n-grams", b)
    refused(t, lambda: ExplicitIndexer(b, lo, hi, dict(index)), "duplicate n-grams with an index", b)
    # an index that does not fit the n-grams
    x = dict(index)
    gone = r.choice(grams)
    del x[gone]
    refused(t, lambda: ExplicitIndexer(list(grams), lo, hi, x), "index without", gone)
    x = dict(index)
    x[gone + "\u2603"] = r.choice(vals)
    refused(t, lambda: ExplicitIndexer(list(grams), lo, hi, x), "index with an additional n-gram")
    x = dict(index)
    x[gone + "\u2603"] = x.pop(gone)
    refused(t, lambda: ExplicitIndexer(list(grams), lo, hi, x), "index with another n-gram")
    x = dict(index)
    x[gone] = r.choice([m + 1, m + 5, 2**31, 2**40])
    refused(t, lambda: ExplicitIndexer(list(grams), lo, hi, x), "index with a gap", x)
    x = {g: i + 1 for g, i in index.items()}
    refused(t, lambda: ExplicitIndexer(list(grams), lo, hi, x), "index without 0", x)
    x = dict(index)
    x[gone] = -r.choice([1, 2, n])
    refused(t, lambda: ExplicitIndexer(list(grams), lo, hi, x), "negative index", x)
    x = {g: 2 * i for g, i in index.items()}
    if m > 1:
        refused(t, lambda: ExplicitIndexer(list(grams), lo, hi, x), "index with gaps", x)
    # a gap inside that keeps the number of distinct values plausible
    if m > 2:
        x = {g: (i if i != m - 2 else m - 1) for g, i in index.items()}
        refused(t, lambda: ExplicitIndexer(list(grams), lo, hi, x), "index without", m - 2, x)
    t.event("indices refused")
    bad_ranges = [(0, 3), (hi + 1, hi), (0, 0), (-1, 3), (3, -1), (lo + 20, lo), (2**32, 2**32)]
    a, z = r.choice(bad_ranges)
    for a, z in bad_ranges:
        refused(t, lambda: ExplicitIndexer(list(grams), a, z), "explicit range", a, z)
        refused(t, lambda: ExplicitIndexer(list(grams), a, z, dict(index)), "explicit range", a, z)
        refused(t, lambda: FinalfusionHashIndexer(10, a, z), "finalfusion range", a, z)
        refused(t, lambda: FastTextIndexer(100, a, z), "fastText range", a, z)
    for b in (0, -1, 64, 65, 2**32, 2**64, 1000):
        refused(t, lambda: FinalfusionHashIndexer(b, lo, hi), "bucket exponent", b)
    for b in (0, -1, 2**32, 2**64, 2**32 + r.randrange(1000)):
        refused(t, lambda: FastTextIndexer(b, lo, hi), "bucket count", b)
    for b in (1, 63, r.randint(2, 62)):
        t.eq(FinalfusionHashIndexer(b, lo, hi).upper_bound, 2**b, "accepted exponent")
    for b in (1, 2**32 - 1, r.randint(2, 2**31)):
        t.eq(FastTextIndexer(b, lo, hi).upper_bound, b, "accepted count")
    t.event("ranges refused")
    t.sig("index", grams, vals)


DTYPES = [np.float64, np.float16, np.int32, np.uint32, np.uint8, np.int64, np.complex64, bool, object, "U4", "S4"]


def arrays(t, r):
    rows, cols = r.randint(0, 5), r.randint(0, 5)
    f = np.float32
    NdArray(np.zeros((rows, cols), f))
    Norms(np.zeros(rows, f))
    for dt in DTYPES:
        refused(t, lambda: NdArray(np.zeros((rows, cols), dt)), "storage of", dt)
        refused(t, lambda: Norms(np.zeros(rows, dt)), "norms of", dt)
    for shape in [(), (rows,), (rows, cols, 1), (1, rows, cols), (rows, 1, cols, 1)]:
        refused(t, lambda: NdArray(np.zeros(shape, f)), "storage of shape", shape)
    for shape in [(), (rows, 1), (1, rows), (rows, cols), (rows, 1, 1)]:
        refused(t, lambda: Norms(np.zeros(shape, f)), "norms of shape", shape)
    nq, nc, sub = r.randint(1, 4), r.randint(1, 4), r.randint(1, 4)
    d = nq * sub
    q = np.zeros((nq, nc, sub), f)
    PQ(q, np.zeros((d, d), f))
    for shape in [(d, d + 1), (d + 1, d), (d + 1, d + 1), (d,), (d - 1, d - 1), (d, 0), (d, d - 1)]:
        refused(t, lambda: PQ(q, np.zeros(shape, f)), "projection of shape", shape, "for", d)
        t.event("projections refused")
    t.event("arrays refused")
    t.sig("arrays", rows, cols, nq, nc, sub)


def files(t, r):
    """The same inconsistencies in files."""
    e = gen.embeddings(r, hi=8, max_sub=30)
    chunks = dict(v=(e.vocab.kind, e.vocab), s=(e.storage.kind, e.storage))
    nn = gen.norms(r, len(e.vocab.words))

    def load(cs, *msg):
        p = t.file(ref.write_fifu(cs)[0])
        for mmap in (False, True):
            refused(t, lambda: lib.load_finalfusion(p, mmap=mmap), "file with", *msg)
        t.event("files refused")

    t.note(gen.describe(e))
    ok = t.file(ref.write_fifu([chunks["v"], chunks["s"], ("norms", nn)])[0])
    lib.check_embeddings(t, lib.load_finalfusion(ok), E(e.vocab, e.storage, nn, None), "consistent file")
    n = r.choice(other_rows(r, e.vocab))
    s = gen.storage(r, n, e.storage.kind)
    load([chunks["v"], (s.kind, s)], f"{n} rows for {e.vocab.upper()} indices")
    load([chunks["v"], (s.kind, s), ("norms", nn)], f"{n} rows for {e.vocab.upper()} indices and norms")
    k = r.choice(other_norms(e))
    load([chunks["v"], chunks["s"], ("norms", gen.norms(r, k))], f"{k} norms for {len(e.vocab.words)} words")
    s = e.storage
    if s.kind == "pq":
        # quantized vectors whose parts do not add up to the length of the vector
        data, spans = ref.write_fifu([chunks["v"], chunks["s"]])
        m, d = s.quantizers.shape[0], s.shape[1]
        at = spans[1][0] + 12 + 8
        assert struct.unpack_from("<II", data, at) == (m, d)
        for length in (d + 1, d - 1, d + m - 1, m - 1):
            if length > 0 and length % m:
                # more than enough data follows
                x = bytearray(data + bytes(4 * (d + m) * s.quantizers.shape[1] * (m + 1) + 4 * (d + m) ** 2))
                struct.pack_into("<I", x, at + 4, length)
                p = t.file(bytes(x))
                for f in (lib.load_finalfusion, lib.load_storage, lib.load_quantized_array):
                    for mmap in (False, True):
                        refused(t, lambda: f(p, mmap=mmap), "quantized vectors with", m, "parts of a vector of length", length)
                t.event("uneven quantized vectors refused")
    v = e.vocab
    if v.words:
        w = V(v.kind, v.words, v.min_n, v.max_n, v.buckets, v.ngram_list, v.ngram_index)
        w.words = dup(r, v.words)
        s = gen.storage(r, v.upper() + r.choice([0, 1]))
        load([(w.kind, w), (s.kind, s)], "duplicate words")
        p = t.file(ref.write_fifu([(w.kind, w)])[0])
        refused(t, lambda: lib.load_vocab(p), "vocabulary file with duplicate words")
    if v.kind != "simple":
        for a, z in ((0, 3), (5, 4), (0, 0)):
            w = V(v.kind, v.words, a, z, v.buckets, v.ngram_list, v.ngram_index)
            load([(w.kind, w), chunks["s"]], "n-gram range", a, z)
    if v.kind == "ff":
        for b in (0, 64, 200):
            w = V("ff", v.words, v.min_n, v.max_n, v.buckets)
            w.buckets = b
            p = t.file(ref.write_fifu([("ff", w)])[0])
            refused(t, lambda: lib.load_vocab(p), "bucket exponent", b)
    if v.kind == "ft":
        w = V("ft", v.words, v.min_n, v.max_n, v.buckets)
        w.buckets = 0
        p = t.file(ref.write_fifu([("ft", w)])[0])
        refused(t, lambda: lib.load_vocab(p), "bucket count 0")
    if v.kind == "explicit" and v.ngram_list:
        g = r.choice(v.ngram_list)
        x = dict(v.ngram_index)
        x[g] = v.n_sub() + r.choice([1, 7, 2**33])
        w = V("explicit", v.words, v.min_n, v.max_n, None, v.ngram_list, x)
        p = t.file(ref.write_fifu([("explicit", w), chunks["s"]])[0])
        refused(t, lambda: lib.load_vocab(p), "n-gram index with a gap", x)
        refused(t, lambda: lib.load_finalfusion(p), "n-gram index with a gap", x)
        w = V("explicit", v.words, v.min_n, v.max_n, None, list(v.ngram_list) + [g], dict(v.ngram_index))
        p = t.file(ref.write_fifu([("explicit", w), chunks["s"]])[0])
        refused(t, lambda: lib.load_vocab(p), "duplicate n-gram", g)
        refused(t, lambda: lib.load_finalfusion(p), "duplicate n-gram", g)
        t.event("n-gram tables refused")
    # duplicates in the other formats
    ws = dup(r, gen.words(r, 3, ascii_ws=False, empty=False, nul=False))
    m = gen.matrix(r, len(ws), 2, "normal")
    refused(t, lambda: load_word2vec(t.file(ref.write_w2v(ws, m))), "word2vec with duplicates", ws)
    refused(t, lambda: load_text(t.file(ref.write_text(ws, m, False))), "text with duplicates", ws)
    refused(t, lambda: load_text_dims(t.file(ref.write_text(ws, m, True))), "text-dims with duplicates", ws)
    ft = ref.FT([2, 5, 5, 5, 5, 1, 1, 2, 7, 3, 4, 100, 0.0], ws, [1] * len(ws), gen.matrix(r, len(ws) + 7, 2, "normal"))
    refused(t, lambda: load_fasttext(t.file(ref.write_ft(ft))), "fastText with duplicates", ws)
    t.event("other formats refused")
    t.sig("files", e.vocab.kind, e.vocab.words, e.storage.shape)


WORKLOADS = dict(construct=(construct, 1200, 40000), assign=(assign, 1200, 40000), vocabularies=(vocabularies, 500, 10000),
                 indexers=(indexers, 800, 20000), arrays=(arrays, 150, 2000), files=(files, 1200, 40000))
