"""C28: descriptive attributes agree with what an object holds, whatever happened to it."""
import numbers
import os
import pathlib
import re

import numpy as np

from finalfusion.compat import (load_fasttext, load_text, load_text_dims, load_word2vec)
from finalfusion.embeddings import SimilarityResult
from finalfusion.io import ChunkIdentifier, TypeId
from ffmon import gen, lib, ref
from ffmon.props.c05 import make_ft

KW = dict(ascii_ws=False, empty=False, nul=False)


def number(t, got, want, *what):
    t.check(isinstance(got, numbers.Integral) and not isinstance(got, bool), *what, "is", got)
    t.eq(int(got), want, *what)


def stated(t, text, what, **values):
    """Where a textual representation states a value ('name=value'), the value is right."""
    for name, want in values.items():
        for got in re.findall(rf"\b{name}=(\w+)", text):
            t.eq(got, str(want), what, f"{name} stated by the representation")
            t.event("stated values")


def vocab_attrs(t, v, m, what):
    number(t, len(v), len(m.words), what, "len(vocab)")
    number(t, v.upper_bound, m.upper(), what, "vocab.upper_bound")
    t.eq(list(v), list(m.words), what, "iteration over the vocabulary")
    t.check(type(v.words) is list and isinstance(v.word_index, dict), what, "types of words and word_index")
    t.eq(v.words, list(m.words), what, "vocab.words")
    t.eq(v.word_index, m.index, what, "vocab.word_index")
    t.eq(int(v.chunk_identifier()), ref.IDS[m.kind], what, "identifier of the vocabulary")
    t.check(type(repr(v)) is str and type(str(v)) is str, what, "repr of the vocabulary")
    for text in (repr(v), str(v)):
        stated(t, text, what, n_words=len(m.words), upper_bound=m.upper())
    if m.kind == "simple":
        t.check(not hasattr(v, "subword_indexer"), what, "simple vocabulary with an indexer")
        return
    ix = v.subword_indexer
    t.check(type(repr(ix)) is str, what, "repr of the indexer")
    for text in (repr(v), repr(ix), str(ix)):
        stated(t, text, what, min_n=m.min_n, max_n=m.max_n)
        if m.kind == "explicit":
            stated(t, text, what, n_ngrams=len(m.ngram_list), n_indices=m.n_sub())
        else:
            stated(t, text, what, **{"buckets_exp" if m.kind == "ff" else "n_buckets": m.buckets})
    for a, b in (("min_n", m.min_n), ("max_n", m.max_n)):
        number(t, getattr(v, a), b, what, f"vocab.{a}")
        number(t, getattr(ix, a), b, what, f"indexer.{a}")
    number(t, ix.upper_bound, m.n_sub(), what, "indexer.upper_bound")
    t.eq(v.upper_bound, len(v) + ix.upper_bound, what, "bound of vocabulary and indexer")
    if m.kind == "ff":
        number(t, ix.buckets_exp, m.buckets, what, "indexer.buckets_exp")
        t.eq(ix.upper_bound, 2 ** ix.buckets_exp, what, "bound and exponent")
    elif m.kind == "ft":
        number(t, ix.n_buckets, m.buckets, what, "indexer.n_buckets")
    else:
        number(t, len(ix), len(m.ngram_list), what, "len(indexer)")
        t.eq(list(ix.ngrams), list(m.ngram_list), what, "indexer.ngrams")
        t.eq(dict(ix.ngram_index), dict(m.ngram_index), what, "indexer.ngram_index")
    t.event("vocabularies described")


def storage_attrs(t, s, shape, kind, what, m=None):
    t.check(isinstance(s.shape, tuple) and len(s.shape) == 2, what, "shape", s.shape)
    number(t, s.shape[0], shape[0], what, "shape[0]")
    number(t, s.shape[1], shape[1], what, "shape[1]")
    number(t, len(s), shape[0], what, "len(storage)")
    t.check(type(s) is lib.SCLS[kind], what, "type", type(s).__name__)
    t.eq(int(s.chunk_identifier()), ref.IDS[kind], what, "identifier of the storage")
    t.check(type(repr(s)) is str, what, "repr of the storage")
    a = np.asarray(s)
    t.check(a.shape == tuple(shape) and a.dtype.newbyteorder("=") == np.float32, what, "array is", a.shape, a.dtype)
    t.eq(sum(1 for _ in s), shape[0], what, "number of rows in iteration")
    if kind == "pq" and m is not None:
        q = s.quantizer
        number(t, s.quantized_len, m.quantizers.shape[0], what, "quantized_len")
        number(t, q.n_centroids, m.quantizers.shape[1], what, "n_centroids")
        number(t, q.reconstructed_len, shape[1], what, "reconstructed_len")
        t.eq(tuple(q.subquantizers.shape), m.quantizers.shape, what, "shape of the quantizers")
        t.check((q.projection is None) == (m.projection is None), what, "projection")
        if m.projection is not None:
            t.eq(tuple(q.projection.shape), (shape[1], shape[1]), what, "shape of the projection")
    t.event("storages described")


def emb_attrs(t, emb, v, shape, kind, norms, meta, origin, what, s=None):
    number(t, emb.dims, shape[1], what, "dims")
    number(t, emb.n_words, len(v.words), what, "n_words")
    if origin is not None:
        t.check(type(emb.origin) is str, what, "origin is", emb.origin)
        t.eq(emb.origin, origin, what, "origin")
    vocab_attrs(t, emb.vocab, v, what)
    storage_attrs(t, emb.storage, shape, kind, what, s)
    t.check((emb.norms is not None) == norms, what, "norms", emb.norms)
    if norms:
        t.check(type(emb.norms) is lib.Norms and emb.norms.dtype.newbyteorder("=") == np.float32, what, "type of the norms")
        t.eq(emb.norms.shape, (len(v.words),), what, "shape of the norms")
        number(t, len(emb.norms), len(v.words), what, "number of norms")
        t.eq(int(emb.norms.chunk_identifier()), ref.IDS["norms"], what, "identifier of the norms")
    t.check((emb.metadata is not None) == meta, what, "metadata", emb.metadata)
    if meta:
        t.eq(int(emb.metadata.chunk_identifier()), ref.IDS["meta"], what, "identifier of the metadata")
    want = ([emb.metadata] if meta else []) + [emb.vocab, emb.storage] + ([emb.norms] if norms else [])
    got = emb.chunks()
    t.check(type(got) is list and len(got) == len(want) and all(a is b for a, b in zip(got, want)), what,
            "chunks() gives", [type(c).__name__ for c in got], "want", [type(c).__name__ for c in want])
    text = repr(emb)
    t.check(type(text) is str, what, "repr of the embeddings")
    if "=" not in (emb.origin or ""):
        stated(t, text, what, n_words=len(v.words), dims=shape[1], has_metadata=meta, has_norms=norms,
               storage_type=type(emb.storage).__name__, vocab_type=type(emb.vocab).__name__)
    t.eq(sum(1 for _ in emb), len(v.words), what, "number of items in iteration")
    t.event("embeddings described")


def histories(t, r):
    """Construction, loading, slicing, assignment and conversion in any order."""
    e = gen.embeddings(r, hi=10, max_sub=40)
    origin = "<memory>"
    if r.p(0.3):
        origin = r.choice(["", "somewhere", "über/日本.fifu"])
        emb = lib.Embeddings(lib.storage(e.storage, r), lib.vocab(e.vocab), None if e.norms is None else lib.Norms(e.norms.copy()),
                             None if e.meta is None else lib.Metadata(e.meta), origin)
    else:
        emb = lib.embeddings(e, r)
    v, s, norms, meta = e.vocab, e.storage, e.norms is not None, e.meta is not None
    shape, kind = s.shape, s.kind
    emb_attrs(t, emb, v, shape, kind, norms, meta, origin, "constructed embeddings", s)
    hist = []
    for _ in range(r.randint(2, 6)):
        op = r.choice(["load", "mmap", "norms", "norms", "nonorms", "meta", "nometa", "slice", "explicit", "rebuild", "refused"])
        hist.append(op)
        t.note("operations", hist)
        if op in ("load", "mmap"):
            p = t.path(r.choice(["", ".fifu", " ü"]))
            emb.write(r.choice([p, pathlib.Path(p), os.fsencode(p)]))
            p = detour(r, p)
            emb = lib.load_finalfusion(r.choice([p, AsPath(p), pathlib.Path(p) if str(pathlib.Path(p)) == p else p]), mmap=op == "mmap")
            origin = p
        elif op == "norms":
            emb.norms = lib.Norms(gen.norms(r, len(v.words)))
            norms = True
        elif op == "nonorms":
            emb.norms = None
            norms = False
        elif op == "meta":
            emb.metadata = lib.Metadata(gen.meta(r))
            meta = True
        elif op == "nometa":
            emb.metadata = None
            meta = False
        elif op == "slice":
            k = gen_slice(r, shape[0])
            part = emb.storage[k]
            n = len(range(*k.indices(shape[0])))
            storage_attrs(t, part, (n, shape[1]), kind, f"storage[{k}]", s)
            k2 = gen_slice(r, n)
            storage_attrs(t, part[k2], (len(range(*k2.indices(n))), shape[1]), kind, f"storage[{k}][{k2}]", s)
            if norms:
                k = gen_slice(r, len(v.words))
                ns = emb.norms[k]
                t.eq(ns.shape, (len(range(*k.indices(len(v.words)))),), "shape of sliced norms")
                t.check(type(ns) is lib.Norms, "type of sliced norms")
            t.event("slices described")
        elif op == "explicit" and v.kind in ("ff", "ft"):
            x = emb.bucket_to_explicit()
            nv = x.vocab
            ix = nv.subword_indexer
            t.check(type(nv) is lib.ExplicitVocab, "converted vocabulary is", type(nv).__name__)
            m = gen.V("explicit", list(v.words), v.min_n, v.max_n, None, list(ix.ngrams), dict(ix.ngram_index))
            used = sorted(set(j for w in v.words for g, j in v.sub(w, with_ngrams=True)))
            number(t, ix.upper_bound, len(used), "number of buckets in use after the conversion")
            emb_attrs(t, x, m, (len(v.words) + len(used), shape[1]), "nd", norms, False, "<memory>", "converted embeddings")
            t.event("conversions described")
        elif op == "rebuild":
            emb = lib.Embeddings(emb.storage, emb.vocab, emb.norms, emb.metadata)
            origin = "<memory>"
        elif op == "refused":
            for bad in (np.zeros(len(v.words), np.float32), lib.Norms(np.zeros(len(v.words) + 1, np.float32)), "x"):
                t.raises(Exception, lambda: setattr(emb, "norms", bad), "assignment of bad norms")
            t.raises(Exception, lambda: setattr(emb, "metadata", dict(a=1)), "assignment of bad metadata")
            for name in ("dims", "n_words", "origin", "vocab", "storage"):
                t.raises(AttributeError, lambda: setattr(emb, name, getattr(emb, name)), "assignment of", name)
        emb_attrs(t, emb, v, shape, kind, norms, meta, origin, f"embeddings after {hist}", s)
    t.sig(tuple(hist), v.kind, kind, shape, len(v.words))
    t.sample(operations=hist, vocab=v.kind, storage=kind, shape=list(shape))


def gen_slice(r, n):
    def b():
        return r.choice([None, 0, 1, -1, n, n + 3, -n, r.randint(-n - 2, n + 2)])
    return slice(b(), b(), r.choice([None, None, 1, 2, 3, -1, -2]))


class AsPath:
    """A path object that does not print as its path."""
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def detour(r, p):
    """The same file by a path that is not in its shortest form."""
    head, tail = os.path.split(p)
    return r.choice([p, f"{head}/./{tail}", f"{head}/../{os.path.basename(head)}/{tail}", f"{head}//{tail}", os.path.relpath(p)])


def formats(t, r):
    """Embeddings from files of the other formats."""
    n, d = r.randint(1, 8), r.choice([1, 2, 3, 10])
    ws = gen.words(r, n, **KW)
    m = gen.matrix(r, len(ws), d)
    for name, load, data in (("word2vec", load_word2vec, ref.write_w2v(ws, m)), ("text", load_text, ref.write_text(ws, m, False)),
                             ("textdims", load_text_dims, ref.write_text(ws, m, True))):
        if name != "word2vec" and d == 1:
            continue
        p = t.file(data, r.choice(["", ".vec", " ü"]))
        p = detour(r, p)
        emb = load(r.choice([p, AsPath(p), pathlib.Path(p) if str(pathlib.Path(p)) == p else p]), **({} if r.p(0.6) else dict(lossy=r.p(0.5))))
        emb_attrs(t, emb, gen.V("simple", ws), (len(ws), d), "nd", True, False, p, f"{name} embeddings")
        t.event(f"{name} files described")
    f = make_ft(r, r.randint(1, 6), d)
    p = detour(r, t.file(ref.write_ft(f)))
    emb = load_fasttext(r.choice([p, AsPath(p), pathlib.Path(p) if str(pathlib.Path(p)) == p else p]))
    v = f.vocab()
    emb_attrs(t, emb, v, (v.upper(), d), "nd", True, True, p, "fastText embeddings")
    t.event("fastText files described")
    t.sig("formats", tuple(ws), d)


def defaults(t, r):
    """Documented defaults and constants."""
    ws = gen.words(r, r.randint(0, 4))
    vocab_attrs(t, lib.FinalfusionBucketVocab(list(ws)), gen.V("ff", ws, 3, 6, 21), "default finalfusion vocabulary")
    vocab_attrs(t, lib.FastTextVocab(list(ws)), gen.V("ft", ws, 3, 6, 2000000), "default fastText vocabulary")
    g = [x for x in dict.fromkeys(gen.word(r, maxlen=4) for _ in range(5))]
    v = gen.V("explicit", ws, 3, 6, None, g, {x: i for i, x in enumerate(g)})
    vocab_attrs(t, lib.ExplicitVocab(list(ws), lib.ExplicitIndexer(list(g))), v, "default explicit vocabulary")
    for k, want in dict(Header=0, SimpleVocab=1, NdArray=2, BucketSubwordVocab=3, QuantizedArray=4, Metadata=5, NdNorms=6,
                        FastTextSubwordVocab=7, ExplicitSubwordVocab=8).items():
        t.eq(int(ChunkIdentifier[k]), want, "identifier", k)
    t.eq((int(TypeId.u8), int(TypeId.f32)), (1, 10), "type identifiers")
    x = [SimilarityResult(gen.word(r), r.choice([0.0, 0.5, r.random()])) for _ in range(5)]
    t.eq([y.similarity for y in sorted(x)], sorted(y.similarity for y in x), "order of similarity results")
    t.event("defaults described")
    t.sig("defaults", tuple(ws), tuple(g))


def ranges(t, r):
    """Vocabularies with any n-gram range and bucket count, also through files; without storage."""
    big = [2**31 - 1, 2**31, 2**32 - 1]
    lo = r.choice([1, 2, 3, 10, r.randint(1, 1000)] + big)
    hi = r.choice([lo, min(lo + 1, 2**32 - 1), r.randint(lo, 2**32 - 1), 2**32 - 1])
    ws = gen.words(r, r.randint(0, 5))
    if r.p(0.5):
        v = gen.V("ff", ws, lo, hi, r.choice([1, 2, 21, 31, 32, 33, 62, 63, r.randint(1, 63)]))
    else:
        v = gen.V("ft", ws, lo, hi, r.choice([1, 2, 2000000, r.randint(1, 2**32 - 1)] + big))
    t.note(v.kind, lo, hi, v.buckets)
    got = lib.vocab(v)
    vocab_attrs(t, got, v, "constructed vocabulary")
    p = t.path()
    got.write(p)
    vocab_attrs(t, lib.load_vocab(p), v, "loaded vocabulary")
    vocab_attrs(t, got, v, "written vocabulary")
    t.event("ranges described")
    t.sig("ranges", v.kind, lo, hi, v.buckets, len(ws))


def large(t, r):
    """More words than small integer types and common limits hold."""
    n = r.choice([33000, 66000, 110000, 140000])
    ws = gen.cheap_words(r, n)
    v = gen.V("simple", ws) if r.p(0.5) else gen.vocab(r, r.choice(["ff", "ft"]), ws=ws)
    if v.kind == "ff":
        v.buckets = min(v.buckets, 12)
    elif v.kind == "ft":
        v.buckets = min(v.buckets, 5000)
    m = np.zeros((v.upper(), 2), np.float32)
    norms = np.ones(n, np.float32) if r.p(0.5) else None
    emb = lib.Embeddings(lib.NdArray(m), lib.vocab(v), None if norms is None else lib.Norms(norms))
    emb_attrs(t, emb, v, m.shape, "nd", norms is not None, False, None, f"embeddings of {n} words")
    t.event("large embeddings described")
    t.sig("large", v.kind, n, v.upper())


WORKLOADS = dict(large=(large, 12, 200), ranges=(ranges, 2000, 40000), histories=(histories, 6000, 200000), formats=(formats, 1500, 40000), defaults=(defaults, 300, 3000))
