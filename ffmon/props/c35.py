"""C35: what a call costs is bounded by what it concerns."""
import contextlib
import gc
import os
import time
import tracemalloc

import numpy as np

from finalfusion.compat import (load_fasttext, load_text, load_text_dims, load_word2vec, write_fasttext, write_text, write_text_dims,
                                write_word2vec)
from finalfusion.subword import ngrams
from ffmon import gen, lib, ref
from ffmon.cli import run_cli

SLACK = 256 * 1024
# interned and cached objects of numpy and Python, buffers of files


@contextlib.contextmanager
def peak():
    """Memory allocated on top of what was there, at most."""
    gc.collect()
    gc.disable()
    tracemalloc.start()
    out = [0]
    try:
        base = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        yield out
        out[0] = tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()
        gc.enable()


@contextlib.contextmanager
def rchar():
    """Bytes that read calls returned."""
    def now():
        with open("/proc/self/io", "rb", buffering=0) as f:
            return int(f.read(100).split()[1])
    out = [0]
    a = now()
    yield out
    out[0] = now() - a


def seconds(fn, batch=1, rounds=3):
    """CPU time of the thread for one call, the best of several."""
    best = float("inf")
    gc.disable()
    try:
        for _ in range(rounds):
            a = time.thread_time()
            for _ in range(batch):
                fn()
            best = min(best, (time.thread_time() - a) / batch)
    finally:
        gc.enable()
    return best


def slower(t, what, small, large, limit, batch=1, floor=2e-6):
    """The second call takes at most `limit` times as long as the first one; measured again and again before it counts."""
    a, b = seconds(small, batch), seconds(large, batch)
    for _ in range(6):
        if b <= limit * max(a, floor):
            break
        time.sleep(0.05)
        a, b = max(a, seconds(small, batch)), min(b, seconds(large, batch, 2))
    t.check(b <= limit * max(a, floor), what, f"takes {b:.2g} s instead of {a:.2g} s, {b / max(a, 1e-9):.0f} times as long (limit {limit})")
    t.event("times compared")


def build(r, kind, skind, n, d=4, meta=None):
    """Library embeddings with n words."""
    base = r.choice(["w", "ü", "日"])
    ws = [f"{base}{i:x}" for i in range(n)]
    if kind == "simple":
        v = lib.SimpleVocab(ws)
    elif kind == "ff":
        v = lib.FinalfusionBucketVocab(ws, lib.FinalfusionHashIndexer(max(1, n.bit_length() - 2), 3, 4))
    elif kind == "ft":
        v = lib.FastTextVocab(ws, lib.FastTextIndexer(n // 2 + 1, 3, 4))
    else:
        grams = [f"{i:x}" for i in range(4096, 4096 + n)]
        v = lib.ExplicitVocab(ws, lib.ExplicitIndexer(grams, 4, 5))
    rows = v.upper_bound
    if skind == "nd":
        s = lib.NdArray(r.np.normal(size=(rows, d)).astype(np.float32))
    else:
        s = lib.QuantizedArray(lib.PQ(r.np.normal(size=(2, 8, d // 2)).astype(np.float32), None), r.np.integers(0, 8, (rows, 2)).astype(np.uint8),
                               np.ones(rows, np.float32))
    return lib.Embeddings(s, v, lib.Norms(np.ones(n, np.float32)), None if meta is None else lib.Metadata(meta))


def how_made(t, r, emb, how):
    if how == "memory":
        return emb
    p = t.path()
    emb.write(p)
    return lib.load_finalfusion(p, mmap=how == "mmap")


KINDS = ["simple", "ff", "ft", "explicit"]
HOW = ["memory", "eager", "mmap"]


def pointwise(emb):
    """Calls that concern one word or a few rows: {name: function}."""
    w = emb.vocab.words[-1]
    n = len(emb.vocab)
    q = "qqqqqzz"
    unknown = "w10ffw10f"
    buf = np.zeros(emb.dims, np.float32)
    v, s = emb.vocab, emb.storage
    bare = lib.Embeddings(s, v)
    ops = {
        "first of iteration without norms": lambda: next(iter(bare)), "stepped slice": lambda: s[n - 9:n:3],
        "indexing": lambda: emb[w], "embedding": lambda: emb.embedding(w), "embedding out": lambda: emb.embedding(w, out=buf),
        "embedding unknown": lambda: emb.embedding(unknown), "embedding nothing": lambda: emb.embedding(q),
        "embedding_with_norm": lambda: emb.embedding_with_norm(w), "membership": lambda: w in emb, "no member": lambda: q in emb,
        "vocab idx": lambda: v.idx(w), "vocab idx unknown": lambda: v.idx(unknown), "vocab membership": lambda: q in v, "vocab item": lambda: v[w],
        "len": lambda: (len(v), emb.n_words, emb.dims, v.upper_bound), "storage row": lambda: s[n - 1], "storage rows": lambda: s[[0, n - 1]],
        "storage slice": lambda: s[n - 3:n], "storage shape": lambda: (s.shape, len(s)), "norm": lambda: emb.norms[n - 1],
        "norms slice": lambda: emb.norms[n - 3:], "first of iteration": lambda: next(iter(emb)), "first word": lambda: next(iter(v)),
        "first row": lambda: next(iter(s)), "repr": lambda: repr(emb), "parts": lambda: (emb.vocab, emb.storage, emb.norms, emb.metadata, emb.origin),
        "chunks": lambda: [c.chunk_identifier() for c in emb.chunks()], "words": lambda: v.words[n - 1], "word index": lambda: v.word_index[w],
    }
    if hasattr(v, "subword_indexer"):
        ops.update({"subword_indices": lambda: v.subword_indices(w), "subwords": lambda: v.subwords(w), "indexer": lambda: v.subword_indexer("1000"),
                    "n-gram range": lambda: (v.min_n, v.max_n, v.subword_indexer.upper_bound)})
        if not isinstance(v, lib.ExplicitVocab):
            pass
        else:
            ops["n-gram"] = lambda: v.subword_indexer["1000"]
            ops["n-gram membership"] = lambda: ("1000" in v.subword_indexer.ngram_index)
    return ops


def lookups(t, r):
    """Neither memory nor time of a lookup grows with the embeddings."""
    kind, sk, how = KINDS[t.idx % 4], r.choice(["nd", "pq"]), r.choice(HOW)
    n1, n2 = 300, 40000
    a = how_made(t, r, build(r, kind, sk, n1), how)
    b = how_made(t, r, build(r, kind, sk, n2), how)
    t.note(kind, sk, how)
    t.sample(vocab=kind, storage=sk, origin=how, words=[n1, n2])
    oa, ob = pointwise(a), pointwise(b)
    for name in oa:
        oa[name](), ob[name]()
        with peak() as m:
            x = ob[name]()
        x = None
        t.check(m[0] < SLACK // 4, name, f"allocates {m[0]} bytes in embeddings of {n2} words ({kind}, {sk}, {how})")
        t.event("allocations observed")
        slower(t, f"{name} in {n2} instead of {n1} words ({kind}, {sk}, {how})", oa[name], ob[name], 16, batch=20)
        t.event(f"op {name}")
        t.sig(name, kind, sk, how)


def parts(t, r):
    """Loading a part needs memory and reads for this part only; memory-mapping none for the matrix."""
    kind, sk = r.choice(KINDS), "nd" if t.idx % 3 else "pq"
    big = r.choice(["storage", "vocab", "metadata"])
    n, d = (40000, 16) if big == "vocab" else (300, 4)
    if big == "storage":
        d = 8192
    meta = {"k": "x" * (2 << 20 if big == "metadata" else 20)}
    emb = build(r, kind, sk, n, d, meta)
    if big == "storage" and sk == "pq":
        # the codes are the large part of a quantized matrix
        emb = build(r, "ft", "nd", 300, 4, meta)
        rows = emb.vocab.upper_bound
        k = 8192
        emb = lib.Embeddings(lib.QuantizedArray(lib.PQ(np.ones((k, 2, 1), np.float32), None), np.zeros((rows, k), np.uint8), None), emb.vocab,
                             emb.norms, emb.metadata)
    p = t.path()
    emb.write(p)
    size = {c: b - a for c, (a, b) in spans(p).items()}
    voc, sto, nor, met = (sum(v for c, v in size.items() if c in k) for k in ((1, 3, 7, 8), (2, 4), (6,), (5,)))
    t.note(kind, sk, big, size)
    # strings and dictionaries take more than the words in the file; a few copies of an array are fine
    todo = {
        "load_vocab": (lambda: lib.load_vocab(p), 60 * voc, 2 * voc), "load_norms": (lambda: lib.load_norms(p), 6 * nor, 2 * nor),
        "load_metadata": (lambda: lib.load_metadata(p), 60 * met, 2 * met),
        "load_storage": (lambda: lib.load_storage(p), 6 * sto, 2 * sto),
        "load_storage mmap": (lambda: lib.load_storage(p, mmap=True), 0 if sk == "nd" else 6 * 8 * 8192, None),
        "load_finalfusion": (lambda: lib.load_finalfusion(p), 60 * (voc + met) + 6 * (sto + nor), 2 * sum(size.values())),
        "load_finalfusion mmap": (lambda: lib.load_finalfusion(p, mmap=True), 60 * (voc + met) + 6 * nor + 6 * 8 * 8192 * (sk == "pq"), None),
    }
    for name, (f, mem, read) in todo.items():
        f()
        with peak() as m:
            x = f()
        x = None
        t.check(m[0] < mem + SLACK, name, f"allocates {m[0]} bytes for parts of {mem} bytes at most; the file has", size)
        with rchar() as got:
            x = f()
        x = None
        if read is None:
            read = 2 * (voc + nor + met) + (8 * 8192 * 2 if sk == "pq" else 0)
        t.check(got[0] < read + SLACK, name, f"reads {got[0]} bytes; the file has", size)
        t.event(f"costs of {name}")
        t.sig("part", name, kind, sk, big)
    t.event(f"large {big}")


def spans(p):
    """{chunk identifier: (start, end)} of a finalfusion file."""
    import struct
    out = {}
    with open(p, "rb") as f:
        data = f.read()
    pos = 12 + 4 * struct.unpack_from("<I", data, 8)[0]
    while pos < len(data):
        c, n = struct.unpack_from("<IQ", data, pos)
        out[c] = (pos, pos + 12 + n)
        pos += 12 + n
    return out


N1, FACTOR = 2000, 16


def scaling(t, r):
    """Work on the whole grows in proportion."""
    names = ["write", "load", "mmap", "word2vec", "text", "textdims", "fasttext", "vocab", "explicit", "indexer", "iterate", "similar", "analogy",
             "vocab equality", "convert", "select", "embedding_similarity"]
    name = names[t.idx % len(names)]
    turn = t.idx // len(names)
    kind, sk = KINDS[(turn + t.idx) % 4], ["nd", "pq"][turn % 2]
    if name == "fasttext":
        kind = "ft"
    if name in ("explicit",):
        kind = r.choice(["ff", "ft"])
    jobs = []
    for n in (N1, N1 * FACTOR):
        emb = build(r, kind, sk, n)
        jobs.append(job(t, r, name, emb, n))
    t.note(name, kind, sk)
    for k, (x, y) in enumerate(zip(*jobs)):
        slower(t, f"{name} ({k}, {kind}, {sk}) of {N1 * FACTOR} instead of {N1} words", x, y, FACTOR * 3.2, floor=2e-5)
        t.sig("scaling", name, k, kind, sk)
    t.event(f"scaling {name}")


def job(t, r, name, emb, n):
    p, q = t.path(), t.path()
    ws = list(emb.vocab.words)
    if name == "write":
        return [lambda: emb.write(p)]
    if name in ("load", "mmap"):
        emb.write(p)
        return [lambda: lib.load_finalfusion(p, mmap=name == "mmap"), lambda: lib.load_vocab(p)]
    if name in ("word2vec", "text", "textdims", "fasttext"):
        w, ld = {"word2vec": (write_word2vec, load_word2vec), "text": (write_text, load_text), "textdims": (write_text_dims, load_text_dims),
                 "fasttext": (write_fasttext, load_fasttext)}[name]
        w(p, emb)
        return [lambda: w(p, emb), lambda: ld(p)]
    if name == "vocab":
        ix = getattr(emb.vocab, "subword_indexer", None)
        return [lambda: type(emb.vocab)(ws) if ix is None else type(emb.vocab)(ws, ix)]
    if name == "explicit":
        # many different n-grams
        n //= 20
        ws = ["".join(map(chr, x)) for x in np.unique(r.np.integers(0x4e00, 0x8e00, (n, 7)), axis=0)]
        v = type(emb.vocab)(ws, emb.vocab.subword_indexer)
        emb = lib.Embeddings(lib.NdArray(np.ones((v.upper_bound, 4), np.float32)), v)
        return [emb.vocab.to_explicit, emb.bucket_to_explicit]
    if name == "indexer":
        grams = [f"{i:x}" for i in range(4096, 4096 + n)]
        return [lambda: lib.ExplicitIndexer(grams, 4, 5), lambda: lib.ExplicitIndexer(grams, 4, 5, {g: i for i, g in enumerate(grams)})]
    if name == "iterate":
        return [lambda: [0 for _ in emb], lambda: [0 for _ in emb.storage], lambda: [0 for _ in emb.vocab], lambda: np.asarray(emb.storage)]
    if name == "similar":
        return [lambda: emb.word_similarity(ws[3], 10)]
    if name == "analogy":
        return [lambda: emb.analogy(ws[3], ws[4], ws[5], 10)]
    if name == "embedding_similarity":
        vec = np.ones(emb.dims, np.float32)
        skip = set(ws[:20])
        return [lambda: emb.embedding_similarity(vec, 10, skip), lambda: emb.embedding_similarity(vec, n // 2)]
    if name == "vocab equality":
        other = type(emb.vocab)(list(ws)) if isinstance(emb.vocab, lib.SimpleVocab) else type(emb.vocab)(list(ws), emb.vocab.subword_indexer)
        return [lambda: emb.vocab == other]
    emb.write(p)
    if name == "convert":
        return [lambda: run_cli(["convert", "-f", "finalfusion", "-t", "word2vec", p, q])]
    wl = t.file("".join(w + "\n" for w in ws[::2]).encode())
    return [lambda: run_cli(["select", p, q, wl])]


def long_words(t, r):
    """N-grams and indices of long words."""
    ix = [lib.FinalfusionHashIndexer(10, 3, 6), lib.FastTextIndexer(1000, 3, 6), lib.ExplicitIndexer([f"{i:x}" for i in range(256, 4096)], 2, 3)]
    base = r.choice(["ab1f", "ü日x", "👍ab"])
    a, b = base * 300, base * 300 * FACTOR
    for i in ix:
        slower(t, f"subword_indices of a long word by {type(i).__name__}", lambda: i.subword_indices(a), lambda: i.subword_indices(b), FACTOR * 3.2, floor=2e-5)
        slower(t, f"subword_indices with n-grams by {type(i).__name__}", lambda: i.subword_indices(a, with_ngrams=True),
               lambda: i.subword_indices(b, with_ngrams=True), FACTOR * 3.2, floor=2e-5)
    slower(t, "ngrams of a long word", lambda: ngrams(a, 3, 6), lambda: ngrams(b, 3, 6), FACTOR * 3.2, floor=2e-5)
    v = lib.FinalfusionBucketVocab([], ix[0])
    slower(t, "idx of a long word", lambda: v.idx(a), lambda: v.idx(b), FACTOR * 3.2, floor=2e-5)
    p, q = t.path(), t.path()
    lib.SimpleVocab([a]).write(p)
    lib.SimpleVocab([b]).write(q)
    slower(t, "loading a long word", lambda: lib.load_vocab(p), lambda: lib.load_vocab(q), FACTOR * 3.2, floor=1e-4)
    for w, ld in ((write_word2vec, load_word2vec), (write_text, load_text)):
        for f, x in ((p, a), (q, b)):
            w(f, lib.Embeddings(lib.NdArray(np.ones((1, 2), np.float32)), lib.SimpleVocab([x])))
        slower(t, f"{ld.__name__} of a long word", lambda: ld(p), lambda: ld(q), FACTOR * 3.2, floor=1e-4)
    t.event("long words")
    t.sig("long", base)


WORKLOADS = dict(lookups=(lookups, 6, 120), parts=(parts, 10, 200), scaling=(scaling, 17, 400), long_words=(long_words, 1, 10))
