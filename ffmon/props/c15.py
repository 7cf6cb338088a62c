"""C15: bucket to explicit conversion."""
import numpy as np

from ffmon import gen, lib, ref
from ffmon.lib import ExplicitVocab
from ffmon.props.c07 import Dense, make


def check_explicit(t, v, xv):
    """The explicit vocabulary xv against the bucket vocabulary model v. Returns n-gram -> index."""
    t.check(type(xv) is ExplicitVocab, "vocabulary type", type(xv).__name__)
    t.eq(list(xv.words), v.words, "words")
    t.eq(dict(xv.word_index), v.index, "word index")
    t.eq((xv.min_n, xv.max_n), (v.min_n, v.max_n), "n-gram range")
    want = {}
    for w in v.words:
        for g in v.subwords(w):
            want[g] = v.hash(g)
    ix = xv.subword_indexer
    got = dict(ix.ngram_index)
    t.eq(set(got), set(want), "n-grams")
    t.eq(sorted(ix.ngrams), sorted(want), "n-gram list")
    to = {}
    for g, b in want.items():
        to.setdefault(b, set()).add(got[g])
    t.check(all(len(s) == 1 for s in to.values()), "n-grams of one bucket got several indices")
    vals = [next(iter(s)) for s in to.values()]
    t.eq(sorted(vals), list(range(len(to))), "indices are not contiguous or are shared by different buckets")
    t.eq(ix.upper_bound, len(to), "indexer bound")
    t.eq(xv.upper_bound, len(v.words) + len(to), "vocabulary bound")
    t.event("n-grams converted", len(want))
    t.event("shared buckets", len(want) - len(to))
    return got, want


def model(v, got):
    return gen.V("explicit", v.words, v.min_n, v.max_n, None, list(got), got)


def check_conversion(t, r, e, emb, what):
    before = lib.snapshot(emb)
    x = emb.bucket_to_explicit()
    t.event("conversions")
    t.check(lib.snapshot(emb) == before, what, "source embeddings changed")
    return check_result(t, r, e, x, what)


def check_result(t, r, e, x, what):
    """Converted embeddings x against the model e of the source."""
    nw = len(e.vocab.words)
    got, want = check_explicit(t, e.vocab, x.vocab)
    t.check(x.metadata is None, what, "metadata kept", x.metadata)
    lib.check_norms(t, x.norms, e.norms, what + " norms")
    xv = model(e.vocab, got)
    den = Dense(e.storage)
    t.eq(tuple(x.storage.shape), (xv.upper(), e.storage.shape[1]), what, "shape")
    rows = np.asarray(x.storage[np.arange(xv.upper())]) if xv.upper() else np.zeros(x.storage.shape, np.float32)
    for i in range(nw):
        den.known(t, rows[i], i, what, "vector of word", i)
    seen = set()
    for g, i in got.items():
        if i not in seen:
            seen.add(i)
            den.known(t, rows[nw + i], nw + want[g], what, "vector of n-gram", repr(g))
    # lookups through the public interface
    for w in e.vocab.words[:5]:
        den.known(t, x[w], e.vocab.index[w], what, "lookup", repr(w))
    xden = Dense(e.storage)
    for _ in range(5):
        w = gen.oov(r, e.vocab)
        src = [nw + want[g] for g in e.vocab.subwords(w) if g in want]
        if not src:
            t.check(x.embedding(w) is None, what, "vector without known n-grams for", repr(w))
            t.raises(KeyError, lambda: x[w], what, "lookup without known n-grams", repr(w))
            t.event("unknown words without known n-grams")
            continue
        if e.norms is not None:
            vec, n = x.embedding_with_norm(w)
        else:
            vec, n = x.embedding(w), None
        xden.oov(t, vec, src, n, what, "unknown word", repr(w))
        t.event("unknown words looked up")
    t.sig(e.vocab.words, e.vocab.kind, e.vocab.min_n, e.vocab.max_n, e.vocab.buckets, e.storage.shape)
    return x, xv, rows


def conversion(t, r):
    e, emb = make(t, r, vkind=r.choice(["ff", "ft"]))
    t.sample(**gen.describe(e))
    x, xv, rows = check_conversion(t, r, e, emb, "conversion")
    if r.p(0.5):
        # the result is a complete embeddings object
        p = t.path()
        x.write(p)
        y = lib.load_finalfusion(p, mmap=r.p(0.5))
        lib.check_embeddings(t, y, gen.E(xv, gen.S("nd", rows), e.norms, None), "written conversion")
        t.check(y.vocab == x.vocab, "loaded vocabulary differs")
        t.event("conversions written and loaded")
    # independent of the source
    if x.storage.shape[0]:
        t.raises(TypeError, x.bucket_to_explicit, "converting explicit embeddings")


def vocabs(t, r):
    """Vocabulary conversion with large bucket spaces and no collisions, or tiny ones."""
    v = gen.vocab(r, r.choice(["ff", "ft"]))
    v.buckets = r.choice([1, 2, 3, 5, 21, 31, 62, 63]) if v.kind == "ff" else r.choice([1, 2, 3, 10, 2000000, 2**31, 2**32 - 1])
    lv = lib.vocab(v)
    t.note(v.kind, v.words, v.min_n, v.max_n, v.buckets)
    x = lv.to_explicit()
    check_explicit(t, v, x)
    lib.check_vocab(t, lv, v, "source vocabulary")
    t.event("vocabularies converted")
    t.sig("v", v.words, v.buckets, v.min_n, v.max_n)


def refused(t, r):
    e, emb = make(t, r, vkind=r.choice(["simple", "explicit"]))
    before = lib.snapshot(emb)
    t.raises(TypeError, emb.bucket_to_explicit, "converting", e.vocab.kind)
    t.check(lib.snapshot(emb) == before, "embeddings changed by a refused conversion")
    t.event("other vocabularies refused")


def large(t, r):
    if t.idx % 5 == 4:
        # tens of thousands of words
        ws = gen.cheap_words(r, r.choice([5000, 66000]))
        v = gen.vocab(r, r.choice(["ff", "ft"]), ws=ws)
        v.min_n, v.max_n = r.choice([(3, 3), (4, 5), (5, 5)])
        v.buckets = r.choice([5, 12, 16]) if v.kind == "ff" else r.choice([50, 5000, 65537])
        e = gen.E(v, gen.storage(r, v.upper(), "nd", True, 2), gen.norms(r, len(ws)) if r.p(0.5) else None)
        check_conversion(t, r, e, lib.embeddings(e), "conversion of a large vocabulary")
        t.event("large vocabularies converted")
        return
    ws = gen.words(r, r.choice([100, 400]))
    e = gen.embeddings(r, r.choice(["ff", "ft"]), r.choice(["nd", "pq"]), ws=ws, max_sub=r.choice([16, 1024, 20000]))
    check_conversion(t, r, e, lib.embeddings(e), "large conversion")
    t.event("large conversions")


WORKLOADS = dict(conversion=(conversion, 2000, 70000), vocabs=(vocabs, 1000, 30000), refused=(refused, 200, 2000),
                 large=(large, 30, 800))
