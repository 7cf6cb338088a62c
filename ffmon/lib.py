"""Bridges between the models and the library's public classes, and comparison monitors."""
import numpy as np
import toml

import finalfusion
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.metadata import Metadata, load_metadata
from finalfusion.norms import Norms, load_norms
from finalfusion.storage import (NdArray, QuantizedArray, load_storage, load_ndarray, load_quantized_array)
from finalfusion.storage.quantized import PQ
from finalfusion.subword import (ExplicitIndexer, FastTextIndexer, FinalfusionHashIndexer)
from finalfusion.vocab import (SimpleVocab, FinalfusionBucketVocab, FastTextVocab, ExplicitVocab, load_vocab,
                               load_simple_vocab, load_finalfusion_bucket_vocab, load_fasttext_vocab,
                               load_explicit_vocab)
from ffmon import gen, ref

VCLS = dict(simple=SimpleVocab, ff=FinalfusionBucketVocab, ft=FastTextVocab, explicit=ExplicitVocab)
SCLS = dict(nd=NdArray, pq=QuantizedArray)
VLOAD = dict(simple=load_simple_vocab, ff=load_finalfusion_bucket_vocab, ft=load_fasttext_vocab,
             explicit=load_explicit_vocab)
SLOAD = dict(nd=load_ndarray, pq=load_quantized_array)


def indexer(v):
    if v.kind == "ff":
        return FinalfusionHashIndexer(v.buckets, v.min_n, v.max_n)
    if v.kind == "ft":
        return FastTextIndexer(v.buckets, v.min_n, v.max_n)
    # the order of the mapping has no meaning: that of the list counts
    return ExplicitIndexer(list(v.ngram_list), v.min_n, v.max_n, dict(sorted(v.ngram_index.items())))


def vocab(v):
    if v.kind == "simple":
        return SimpleVocab(list(v.words))
    return VCLS[v.kind](list(v.words), indexer(v))


def storage(s, r=None):
    lay = (lambda a: None if a is None else gen.layout(r, a)) if r is not None else \
        (lambda a: None if a is None else a.copy())
    if s.kind == "nd":
        return NdArray(lay(s.matrix))
    return QuantizedArray(PQ(lay(s.quantizers), lay(s.projection)), lay(s.codes), lay(s.norms))


def embeddings(e, r=None):
    lay = (lambda a: gen.layout(r, a)) if r is not None else (lambda a: a.copy())
    return Embeddings(storage(e.storage, r), vocab(e.vocab), None if e.norms is None else Norms(lay(e.norms)),
                      None if e.meta is None else Metadata(e.meta))


def toml_meta(m):
    return toml.loads(toml.dumps(m))


def check_vocab(t, got, v, what="vocab", deep=True):
    t.check(type(got) is VCLS[v.kind], what, "type", type(got).__name__, "want", v.kind)
    t.eq(list(got.words), v.words, what, "words")
    t.eq(dict(got.word_index), v.index, what, "index")
    t.eq(len(got), len(v.words), what, "len")
    t.eq(got.upper_bound, v.upper(), what, "upper_bound")
    if v.kind != "simple":
        t.eq((got.min_n, got.max_n), (v.min_n, v.max_n), what, "n-gram range")
        ix = got.subword_indexer
        if v.kind == "ff":
            t.eq(ix.buckets_exp, v.buckets, what, "bucket exponent")
        elif v.kind == "ft":
            t.eq(ix.n_buckets, v.buckets, what, "buckets")
        else:
            t.eq(list(ix.ngrams), list(v.ngram_list), what, "n-grams")
            t.eq(dict(ix.ngram_index), dict(v.ngram_index), what, "n-gram index")
        t.eq(ix.upper_bound, v.n_sub(), what, "indexer bound")


def check_storage(t, got, s, what="storage"):
    """Bit-exact comparison of what the storage holds."""
    t.check(type(got) is SCLS[s.kind], what, "type", type(got).__name__, "want", s.kind)
    t.eq(tuple(got.shape), tuple(s.shape), what, "shape")
    if s.kind == "nd":
        t.bits(np.asarray(got), s.matrix, what, "array")
        return
    q = got.quantizer
    t.bits(q.subquantizers, s.quantizers, what, "quantizers")
    t.check((q.projection is None) == (s.projection is None), what, "projection presence")
    if s.projection is not None:
        t.bits(q.projection, s.projection, what, "projection")
    t.eq(q.n_centroids, s.quantizers.shape[1], what, "n_centroids")
    t.eq(q.reconstructed_len, s.shape[1], what, "reconstructed_len")
    t.eq(got.quantized_len, s.quantizers.shape[0], what, "quantized_len")
    t.eq(len(got), s.shape[0], what, "len")
    # the reconstruction observes codes and norms
    check_rows(t, got, s, what)


def pq_tol(s):
    """Elementwise error bound for float32 reconstruction."""
    n, d = s.shape
    if s.kind == "nd":
        return 0.0
    q = np.abs(np.nan_to_num(s.quantizers.astype(np.float64), posinf=0, neginf=0))
    sub = q.shape[2]
    out = np.zeros((n, d))
    for j in range(q.shape[0]):
        out[:, j * sub:(j + 1) * sub] = q[j][s.codes[:, j]]
    if s.projection is not None:
        out = out @ np.abs(s.projection.astype(np.float64)).T
    if s.norms is not None:
        # a product that float32 cannot hold is infinite before the norm scales it
        out = np.where(out < 1e37, out * np.abs(s.norms.astype(np.float64))[:, None], np.inf)
    return out * 1e-5 * (1 + d / 64) + 1e-37


def check_rows(t, got, s, what):
    a = np.asarray(got[np.arange(s.shape[0])]) if s.shape[0] else np.zeros(s.shape, np.float32)
    if s.projection is None:
        # concatenation and one float32 multiplication: exact
        same_values(t, a, exact_pq(s), what, "reconstruction")
    else:
        close_nonfinite(t, a, s.dense(), pq_tol(s), what, "reconstruction")


def same_values(t, got, want, *msg):
    """Bit identity of float arrays, any NaN equal to any NaN."""
    g, w = np.asarray(got), np.asarray(want)
    if g.dtype.kind == "f" and g.shape == w.shape:
        nan = np.isnan(g)
        t.check(np.array_equal(nan, np.isnan(w)), *msg, "NaN positions")
        g, w = np.where(nan, 0, g).astype(np.float32), np.where(nan, 0, w).astype(np.float32)
    t.bits(g, w, *msg)


def exact_pq(s):
    n, d = s.shape
    out = np.zeros((n, d), np.float32)
    sub = s.quantizers.shape[2]
    for j in range(s.quantizers.shape[0]):
        out[:, j * sub:(j + 1) * sub] = s.quantizers[j].astype("=f4")[s.codes[:, j]]
    if s.norms is not None:
        out = np.multiply(s.norms.astype("=f4")[:, None], out)
    return out


def close_nonfinite(t, got, want, tol, *msg):
    g = np.asarray(got, np.float64)
    w = np.asarray(want, np.float64)
    t.eq(g.shape, w.shape, *msg, "shape")
    tol = np.broadcast_to(tol, w.shape)
    fin = np.isfinite(w) & (np.abs(w) < 1e37) & np.isfinite(g) & np.isfinite(tol)
    big = np.isfinite(w) & (np.abs(w) < 1e35) & (tol < 1e30)
    t.check(not np.any(big & ~np.isfinite(g)), *msg, "finite values became non-finite")
    tol = np.where(np.isfinite(tol), tol, 0)
    t.close(np.where(fin, g, 0), np.where(fin, w, 0), tol, *msg)


def check_norms(t, got, n, what="norms"):
    if n is None:
        t.check(got is None, what, "present although absent")
        return
    t.check(type(got) is Norms, what, "type", type(got).__name__)
    t.bits(np.asarray(got), n, what)


def check_meta(t, got, m, what="metadata"):
    if m is None:
        t.check(got is None, what, "present although absent")
        return
    t.check(type(got) is Metadata, what, "type", type(got).__name__)
    t.eq(gen.canon(dict(got)), gen.canon(m), what)


def check_embeddings(t, got, e, what, meta="toml"):
    check_vocab(t, got.vocab, e.vocab, what + " vocab")
    check_storage(t, got.storage, e.storage, what + " storage")
    check_norms(t, got.norms, e.norms, what + " norms")
    m = e.meta
    if m is not None and meta == "toml":
        m = toml_meta(m)
    check_meta(t, got.metadata, m, what + " metadata")
    t.eq(got.dims, e.storage.shape[1], what, "dims")
    t.eq(got.n_words, len(e.vocab.words), what, "n_words")


def snapshot(emb, enc=lambda a: a.tobytes()):
    """Everything observable of embeddings, for comparison before and after."""
    v, s = emb.vocab, emb.storage
    parts = [type(v).__name__, tuple(v.words), tuple(v.word_index.items()), v.upper_bound, len(v)]
    if hasattr(v, "subword_indexer"):
        ix = v.subword_indexer
        parts += [v.min_n, v.max_n, ix.upper_bound]
        if isinstance(ix, ExplicitIndexer):
            parts += [tuple(ix.ngrams), tuple(ix.ngram_index.items())]
    parts += [type(s).__name__, tuple(s.shape), enc(np.asarray(s))]
    if isinstance(s, QuantizedArray):
        q = s.quantizer
        parts += [enc(np.asarray(q.subquantizers)), None if q.projection is None else enc(np.asarray(q.projection))]
    parts += [None if emb.norms is None else enc(np.asarray(emb.norms)),
              None if emb.metadata is None else gen.canon(dict(emb.metadata)), emb.origin]
    return parts
