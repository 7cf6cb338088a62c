"""C08: vocabularies."""
import unicodedata

import numpy as np

from ffmon import gen, lib, ref
from ffmon.ref import V


def check_queries(t, r, lv, v, n=10):
    up = len(v.words) + v.n_sub()
    t.eq(lv.upper_bound, up, "upper bound")
    for _ in range(n):
        w = r.choice(v.words) if v.words and r.p(0.3) else gen.oov(r, v)
        want = v.idx(w)
        sent = r.choice([None, -7, 0, [], "dflt", object()])
        t.event("queries known" if isinstance(want, int) else ("queries none" if want is None else "queries n-grams"))
        t.eq(w in lv, isinstance(want, int), "membership of", repr(w))
        t.sig(v.kind, w, v.min_n, v.max_n, v.buckets)
        if want is None:
            t.check(lv.idx(w) is None, "idx of", repr(w), "without default")
            t.check(lv.idx(w, sent) is sent, "idx default of", repr(w))
            t.check(lv.idx(w, default=sent) is sent, "idx default of", repr(w))
            t.raises(KeyError, lambda: lv[w], "indexing", repr(w))
        else:
            for got in (lv.idx(w), lv.idx(w, sent), lv[w]):
                t.check(isinstance(got, list) == isinstance(want, list), "kind of index of", repr(w), got)
                t.eq(got, want, "index of", repr(w))
            if isinstance(want, list):
                got = lv.idx(w)
                t.check(all(len(v.words) <= i < up for i in got), "n-gram index out of range for", repr(w), got)
        if v.kind != "simple":
            b = r.p(0.5)
            t.eq(lv.subwords(w, b), v.subwords(w, b), "n-grams of", repr(w))
            t.eq(lv.subword_indices(w, b), v.sub(w, b), "n-gram indices of", repr(w))
            t.eq(lv.subword_indices(w, bracket=b, with_ngrams=True), v.sub(w, b, True), "n-grams with indices of", repr(w))
            t.eq(lv.subword_indices(w), v.sub(w), "n-gram indices of", repr(w))
            t.eq(lv.subwords(w), v.subwords(w), "n-grams of", repr(w))


def check_list(t, r, lv, v):
    t.eq(len(lv), len(v.words), "length")
    t.eq(list(lv), v.words, "iteration")
    t.eq(list(lv.words), v.words, "words")
    t.eq(dict(lv.word_index), v.index, "word index")
    for i, w in enumerate(v.words):
        t.check(w in lv, "membership of", repr(w))
        t.eq(lv[w], i, "index of", repr(w))
        t.eq(lv.idx(w), i, "idx of", repr(w))
        t.eq(lv.word_index[w], i, "word_index of", repr(w))
        t.eq(lv.words[i], w, "word", i)
    t.check(v.words in lv, "all words as a list")
    if v.words:
        sub = r.sample(v.words, r.randint(1, len(v.words)))
        t.check(sub in lv and tuple(sub) in lv and set(sub) in lv, "known words as a collection")
    o = gen.oov(r, v)
    t.check((v.words + [o]) not in lv and [o] not in lv, "collection with an unknown word", repr(o))
    t.check(5 not in lv and None not in lv and 0 not in lv and 1.5 not in lv, "other objects are no members")
    if v.words:
        w = r.choice(v.words)
        t.check([[w], (w,), w] in lv and [sub, (x for x in sub)] in lv and lv in lv, "nested collections of known words")
        t.check([[w], (w, o)] not in lv, "nested collection with an unknown word", repr(o))
        b = w.encode("utf-8", "surrogatepass")
        t.check(not b or b not in lv, "bytes are no words", b)
        t.check([w, 3] not in lv and [w, None] not in lv, "collection with other objects")


def big(v, r):
    """Bucket counts beyond what storage can hold."""
    if v.kind == "ff":
        v.buckets = r.choice([1, 2, 8, 21, 31, 32, 33, 62, 63, r.randint(1, 63)])
    elif v.kind == "ft":
        v.buckets = r.choice([1, 2, 2000000, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, r.randint(1, 2**32 - 1)])
    return v


def direct(t, r):
    v = gen.vocab(r)
    if r.p(0.5):
        v = big(v, r)
    t.note(v.kind, v.words[:8], v.min_n, v.max_n, v.buckets)
    t.sample(vocab=v.kind, words=[repr(w)[:40] for w in v.words[:6]], min_n=v.min_n, max_n=v.max_n, buckets=v.buckets)
    lv = lib.vocab(v)
    lib.check_vocab(t, lv, v)
    check_list(t, r, lv, v)
    check_queries(t, r, lv, v)
    t.event(f"vocab {v.kind}")


def loaded(t, r):
    v = gen.vocab(r)
    if r.p(0.5):
        v = big(v, r)
    t.note(v.kind, v.words[:8], v.min_n, v.max_n, v.buckets)
    p = t.path()
    if r.p(0.5):
        lib.vocab(v).write(p)
    else:
        p = t.file(ref.write_fifu([(v.kind, v)])[0])
    lv = lib.load_vocab(p)
    lib.check_vocab(t, lv, v)
    check_list(t, r, lv, v)
    check_queries(t, r, lv, v)
    t.check(lv == lib.vocab(v), "loaded vocabulary is not equal")
    if v.upper() < 2000:
        emb = lib.Embeddings(lib.NdArray(np.zeros((v.upper(), 1), np.float32)), lv)
        t.eq(emb.n_words, len(v.words), "n_words")
        for w in v.words[:5] + [gen.oov(r, v) for _ in range(3)]:
            t.eq(w in emb, w in v.index, "membership in embeddings of", repr(w))
        if v.words:
            t.check(v.words[:3] in emb and (v.words[:3] + [gen.oov(r, v)]) not in emb, "membership of collections in embeddings")
        t.event("membership in embeddings")
    t.event("loaded vocabularies")


def variants(t, r):
    """Words that differ only in case, whitespace or normalization."""
    base = gen.word(r, maxlen=8)
    cand = [base, base.upper(), base.lower(), base.title(), base.swapcase(), base.casefold(), base.strip(), base + " ", " " + base,
            base + "\n", base + "\u00a0", "\u3000" + base, base + "\u200b", base + "\0", base + "\u0301"]
    cand += [unicodedata.normalize(f, base) for f in ("NFC", "NFD", "NFKC", "NFKD")]
    cand += ["é", "e\u0301", "Å", "Å", "A\u030a", "ß", "ss", "ẞ", "ﬁ", "fi", "İ", "i", "ı", "I", "K", "K", "\ufeffx", "x"]
    cand = list(dict.fromkeys(cand))
    r.shuffle(cand)
    k = r.randint(1, len(cand))
    ws, rest = cand[:k], cand[k:]
    v = gen.vocab(r, ws=ws)
    t.note(v.kind, ws)
    lv = lib.vocab(v)
    check_list(t, r, lv, v)
    for w in rest:
        t.check(w not in lv, repr(w), "is a member of a vocabulary of variants")
        want = v.idx(w)
        t.eq(lv.idx(w), want, "index of a variant", repr(w))
        t.event("variants not confused")
        t.sig("variant", w, ws)


def equality(t, r):
    v = gen.vocab(r, hi=8)
    a, b = lib.vocab(v), lib.vocab(V(v.kind, v.words, v.min_n, v.max_n, v.buckets, v.ngram_list, v.ngram_index))
    t.check(a == b and b == a and not a != b, "equal vocabularies differ")
    t.note(v.kind, v.words, v.min_n, v.max_n, v.buckets)
    others = []
    ws = list(v.words)
    if len(ws) > 1:
        x = ws[:]
        i = r.randrange(len(x) - 1)
        x[i], x[i + 1] = x[i + 1], x[i]
        others.append(V(v.kind, x, v.min_n, v.max_n, v.buckets, v.ngram_list, v.ngram_index))
    if ws:
        others.append(V(v.kind, ws[:-1], v.min_n, v.max_n, v.buckets, v.ngram_list, v.ngram_index))
        x = ws[:]
        x[r.randrange(len(x))] = gen.oov(r, v)
        others.append(V(v.kind, x, v.min_n, v.max_n, v.buckets, v.ngram_list, v.ngram_index))
    others.append(V(v.kind, ws + [gen.oov(r, v)], v.min_n, v.max_n, v.buckets, v.ngram_list, v.ngram_index))
    if v.kind != "simple":
        others.append(V(v.kind, ws, v.min_n, v.max_n + 1, v.buckets, v.ngram_list, v.ngram_index))
        if v.min_n > 1:
            others.append(V(v.kind, ws, v.min_n - 1, v.max_n, v.buckets, v.ngram_list, v.ngram_index))
        if v.kind != "explicit":
            others.append(V(v.kind, ws, v.min_n, v.max_n, v.buckets + 1))
        else:
            g = list(v.ngram_list)
            others.append(V(v.kind, ws, v.min_n, v.max_n, None, g + ["\ue000new"], dict(v.ngram_index, **{"\ue000new": v.n_sub()})))
            if len(g) > 1:
                others.append(V(v.kind, ws, v.min_n, v.max_n, None, g[1:] + g[:1], v.ngram_index))
            if len(set(v.ngram_index.values())) > 1:
                x, y = r.sample(g, 2)
                ni = dict(v.ngram_index)
                ni[x], ni[y] = ni[y], ni[x]
                if ni != v.ngram_index:
                    others.append(V(v.kind, ws, v.min_n, v.max_n, None, g, ni))
    for k in ref.VOCABS:
        if k != v.kind:
            others.append(V(k, ws, v.min_n, v.max_n, 3, [], {}))
    for o in others:
        lo = lib.vocab(o)
        t.check(not a == lo and not lo == a and a != lo, "different vocabularies are equal", o.kind, o.words, o.min_n, o.max_n, o.buckets)
        t.event("different vocabularies told apart")
        t.sig("neq", v.words, o.kind, o.words)
    t.check(a != 3 and a != v.words and not a == None, "vocabulary equal to another object")  # noqa: E711


def large(t, r):
    ws = gen.cheap_words(r, r.choice([1000, 66000]), odd=True)
    v = V("simple", ws) if r.p(0.3) else gen.vocab(r, r.choice(["ff", "ft"]), ws=ws)
    if t.idx % 4 == 1:
        v = gen.many_ngrams(r, 300, 70000)
        ws = v.words
    lv = lib.vocab(v)
    if r.p(0.5):
        p = t.path()
        lv.write(p)
        lv = lib.load_vocab(p)
        lib.check_vocab(t, lv, v, "large vocabulary loaded")
    t.eq(list(lv), v.words, "iteration")
    for _ in range(200):
        i = r.randrange(len(ws))
        t.eq(lv[ws[i]], i, "index")
    check_queries(t, r, lv, v, 30)
    n = len(ws)
    sub = r.sample(ws, r.randint(n // 2, n))
    t.check(sub in lv and tuple(sub) in lv and iter(sub) in lv, "long collection of known words")
    if v.kind == "simple":
        at = r.choice([len(sub), len(sub), r.randint(0, len(sub))])
        t.check(sub[:at] + ["no such word"] + sub[at:] not in lv, "long collection with an unknown word at", at)
    t.check(lv == lib.vocab(v), "large vocabulary and its copy")
    i = r.choice([n - 1, n - 1, r.randrange(n)])
    late = list(ws)
    late[i] += "\u2603"
    if n > 1 and r.p(0.5):
        late = list(ws)
        j = i - 1 if i else 1
        late[i], late[j] = late[j], late[i]
    o = lib.vocab(V(v.kind, late, v.min_n, v.max_n, v.buckets, v.ngram_list, v.ngram_index))
    t.check(lv != o and not o == lv, "large vocabularies that differ at", i, "are equal")
    t.event("large vocabularies compared")
    t.event("large vocabularies")


WORKLOADS = dict(direct=(direct, 4000, 150000), loaded=(loaded, 2000, 60000), variants=(variants, 1500, 40000),
                 equality=(equality, 1500, 40000), large=(large, 24, 400))
