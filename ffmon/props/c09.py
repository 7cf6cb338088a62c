"""C09: n-grams and hashes."""
import unicodedata
import struct

from finalfusion.subword import ExplicitIndexer, FastTextIndexer, FinalfusionHashIndexer, ngrams
from ffmon import gen, ref

U32 = 2**32 - 1


def string(r, surrogates=False):
    k = r.random()
    if k < 0.08:
        w = ""
    elif k < 0.2:
        w = gen.long_word(r, r.choice([20, 50, 100, 255, 256]))
    elif k < 0.3:
        # every UTF-8 length next to each other
        w = "".join(r.choice(["a", "\x7f", "\x80", "é", "\u07ff", "\u0800", "\ud7ff", "\ue000", "日", "\uffff", "\U00010000",
                              "👍", "\U0010ffff", "\0", "<", ">"]) for _ in range(r.randint(1, 14)))
    elif k < 0.4:
        w = r.choice(["a", "ab", "aé", "日", "👍", "\0", "<>", "><"]) * r.randint(1, 9)
    else:
        w = gen.word(r, maxlen=r.choice([3, 12, 30]))
    if surrogates and r.p(0.1):
        i = r.randint(0, len(w))
        w = w[:i] + chr(r.randrange(0xd800, 0xe000)) + w[i:]
    return w


def n_range(r, length):
    k = r.random()
    if k < 0.15:
        return 3, 6
    if k < 0.3:
        lo = r.choice([1, length, length + 1, length + 2, length + 3, max(1, length - 1)])
        lo = max(1, lo)
        return lo, r.choice([lo, lo + 1, lo + 5, U32])
    if k < 0.4:
        lo = r.randint(1, 5)
        return lo, r.choice([U32, 2**31, 2**31 - 1, 2**16, 255, 256, lo])
    if k < 0.44:
        lo = r.choice([U32, 2**31, 2**31 - 1, 2**16, 100])
        return lo, r.choice([lo, U32])
    lo = r.randint(1, 8)
    return lo, lo + r.choice([0, 0, 1, 2, 3, 7])


def offset(r):
    return r.choice([0, 0, 1, 2, 1000, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40, 2**62, r.randrange(1 << 40)])


def the_range(r, w):
    lo, hi = n_range(r, len(w))
    if len(w) > 60 and hi - lo > 12:
        # keep the number of n-grams of long strings reasonable
        hi = lo + 12 if r.p(0.8) else hi
        if hi > 60 and len(w) > 120:
            hi = lo + 12
    return lo, hi


def extraction(t, r):
    for _ in range(20):
        w = string(r, True)
        lo, hi = the_range(r, w)
        b = r.p(0.6)
        want = ref.ngrams(w, lo, hi, b)
        t.note("ngrams", w, lo, hi, b)
        got = ngrams(w, lo, hi, b) if r.p(0.5) else ngrams(w, min_n=lo, max_n=hi, bracket=b)
        t.check(isinstance(got, list), "ngrams returns", type(got).__name__)
        t.eq(got, want, "n-grams of", repr(w), f"{lo}-{hi} bracket={b}")
        t.event("strings extracted")
        t.event("n-grams compared", len(want))
        t.sig(w, lo, hi, b)
        if (lo, hi) == (3, 6):
            t.eq(ngrams(w), ref.ngrams(w, 3, 6), "default n-grams of", repr(w))
            t.event("default ranges")
    t.sample(string=repr(w)[:80], min_n=lo, max_n=hi, bracket=b, n_grams=len(want))


def compare(t, r, ix, w, lo, hi, hash_, what):
    """The three ways of indexing a string."""
    b, off = r.p(0.6), offset(r)
    pairs = [(g, h) for g, h in ((g, hash_(g)) for g in ref.ngrams(w, lo, hi, b)) if h is not None]
    t.note(what, repr(w), lo, hi, b, off)
    t.eq(ix.subword_indices(w, offset=off, bracket=b), [h + off for _, h in pairs], what, "indices of", repr(w))
    t.eq(ix.subword_indices(w, off, b, True), [(g, h + off) for g, h in pairs], what, "n-grams and indices of", repr(w))
    t.eq(ix.subword_indices(w, off, b, with_ngrams=False), [h + off for _, h in pairs], what, "indices of", repr(w))
    bound = ix.upper_bound
    for g, h in pairs[:12] + pairs[-3:]:
        t.eq(ix(g), h, what, "index of n-gram", repr(g))
        t.check(0 <= h < bound, what, "index beyond the bound", h, bound)
    if r.p(0.2):
        t.eq(ix.subword_indices(w), [h for h in map(hash_, ref.ngrams(w, lo, hi)) if h is not None],
             what, "default indices of", repr(w))
    t.event("n-grams hashed", len(pairs))
    t.sig(what, w, lo, hi, b, off, bound)


def finalfusion(t, r):
    for _ in range(12):
        w = string(r, True)
        lo, hi = the_range(r, w)
        e = r.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 21, 31, 32, 33, 48, 62, 63, r.randint(1, 63)])
        ix = FinalfusionHashIndexer(e, lo, hi) if r.p(0.5) else FinalfusionHashIndexer(bucket_exp=e, min_n=lo, max_n=hi)
        t.eq((ix.min_n, ix.max_n, ix.buckets_exp, ix.upper_bound), (lo, hi, e, 2**e), "finalfusion indexer properties")
        compare(t, r, ix, w, lo, hi, lambda g: ref.fifu_hash(g) & (2**e - 1), "finalfusion")
        t.event("finalfusion strings")
        g = string(r, True)
        t.eq(ix(g), ref.fifu_hash(g) & (2**e - 1), "finalfusion hash of", repr(g))
    t.sample(indexer="finalfusion", string=repr(w)[:80], min_n=lo, max_n=hi, exponent=e)


def fasttext(t, r):
    for _ in range(12):
        w = string(r)
        lo, hi = the_range(r, w)
        n = r.choice([1, 2, 3, 10, 255, 256, 257, 65535, 65536, 2000000, 2**31 - 1, 2**31, 2**31 + 1, U32 - 1, U32, r.randint(1, U32)])
        ix = FastTextIndexer(n, lo, hi) if r.p(0.5) else FastTextIndexer(n_buckets=n, min_n=lo, max_n=hi)
        t.eq((ix.min_n, ix.max_n, ix.n_buckets, ix.upper_bound), (lo, hi, n, n), "fastText indexer properties")
        compare(t, r, ix, w, lo, hi, lambda g: ref.ft_hash(g) % n, "fastText")
        t.event("fastText strings")
        g = string(r)
        t.eq(ix(g), ref.ft_hash(g) % n, "fastText hash of", repr(g))


def explicit(t, r):
    for _ in range(6):
        w = string(r, True)
        lo, hi = the_range(r, w)
        grams = list(dict.fromkeys([g for x in (w, w + "x", string(r, True)) for g in ref.ngrams(x, lo, min(hi, lo + 12))
                                    if r.p(0.7)][:300] + [string(r, True) for _ in range(3)]))
        r.shuffle(grams)
        if r.p(0.5) or not grams:
            idx = {g: i for i, g in enumerate(grams)}
            ix = ExplicitIndexer(grams, lo, hi)
        else:
            m = r.randint(1, len(grams))
            vals = list(range(m)) + [r.randrange(m) for _ in range(len(grams) - m)]
            r.shuffle(vals)
            idx = dict(r.sample(list(zip(grams, vals)), len(grams)))
            ix = ExplicitIndexer(list(grams), lo, hi, dict(idx)) if r.p(0.5) else \
                ExplicitIndexer(ngrams=list(grams), min_n=lo, max_n=hi, ngram_index=dict(idx))
        t.eq((ix.min_n, ix.max_n, ix.upper_bound, len(ix)), (lo, hi, len(set(idx.values())), len(grams)),
             "explicit indexer properties")
        t.eq(list(ix), grams, "explicit iteration")
        compare(t, r, ix, w, lo, hi, idx.get, "explicit")
        for g in r.sample(grams, min(5, len(grams))):
            t.eq(ix[g], idx[g], "table entry of", repr(g))
            t.check(g in ix, "membership of", repr(g))
        near = [string(r, True) + "\ue001"]
        for g in r.sample(grams, min(3, len(grams))):
            near += [g.upper(), g.lower(), g.swapcase(), g.casefold(), g.strip(), g + " ", g[1:], g[:-1], g + g[-1:], g.strip("<>"),
                     "<" + g + ">", g[::-1], unicodedata.normalize("NFC", g), unicodedata.normalize("NFD", g)]
        for g in near:
            if g not in idx:
                t.check(ix(g) is None and g not in ix, "absent n-gram", repr(g), "is indexed")
                t.raises(KeyError, lambda: ix[g], "absent n-gram")
                t.event("absent n-grams looked up")
        t.event("explicit strings")


def defaults(t, r):
    """Default constructor arguments: 2^21 buckets, 2,000,000 buckets, 3 to 6 characters."""
    for _ in range(10):
        w = string(r)
        compare(t, r, FinalfusionHashIndexer(), w, 3, 6, lambda g: ref.fifu_hash(g) & (2**21 - 1), "finalfusion default")
        compare(t, r, FastTextIndexer(), w, 3, 6, lambda g: ref.ft_hash(g) % 2000000, "fastText default")
        t.event("default indexers")


def long_strings(t, r):
    """Beyond 16 bit character and byte offsets."""
    n = r.choice([65534, 65535, 65536, 66000, 140000]) if t.idx % 2 == 0 else r.choice([1000, 4095, 4096, 33000])
    w = gen.long_word(r, n)
    lo = r.choice([1, 2, 3, 20])
    hi = lo + r.choice([0, 1])
    want = ref.ngrams(w, lo, hi)
    t.check(ngrams(w, lo, hi) == want, f"n-grams of a string of {len(w)} characters")
    e, nb = r.randint(1, 63), r.randint(1, U32)
    pos = sorted({0, len(want) - 1} | {r.randrange(len(want)) for _ in range(300)})
    a = FinalfusionHashIndexer(e, lo, hi).subword_indices(w, 5, with_ngrams=True)
    b = FastTextIndexer(nb, lo, hi).subword_indices(w, 7, with_ngrams=True)
    t.eq((len(a), len(b)), (len(want), len(want)), "number of indices of a long string")
    t.check([g for g, _ in a] == want and [g for g, _ in b] == want, "n-grams of a long string")
    for p in pos:
        t.eq(a[p][1], (ref.fifu_hash(want[p]) & (2**e - 1)) + 5, "finalfusion index in a long string")
        t.eq(b[p][1], ref.ft_hash(want[p]) % nb + 7, "fastText index in a long string")
    if t.idx % 4 == 1:
        # an explicit indexer that knows most of the n-grams
        known = sorted(set(want))
        r.shuffle(known)
        if r.p(0.5):
            known = known[:max(1, len(known) * 9 // 10)]
        ix = ExplicitIndexer(known, lo, hi)
        where = {g: i for i, g in enumerate(known)}
        t.check(ix.subword_indices(w, 9, with_ngrams=True) == [(g, where[g] + 9) for g in want if g in where], "explicit n-grams of a long string")
        t.check(ix.subword_indices(w) == [where[g] for g in want if g in where], "explicit indices of a long string")
        t.event("explicit indices of long strings", len(want))
    if t.idx % 4 == 0:
        # a single n-gram of that length
        k = len(w) + 2
        for got, h, base in ((FinalfusionHashIndexer(e, k, k), ref.fifu_hash, 2**e), (FastTextIndexer(nb, k, k), ref.ft_hash, nb)):
            want_h = h("<" + w + ">") % base
            t.eq(got.subword_indices(w, 3), [want_h + 3], "index of a long n-gram")
            t.eq(got("<" + w + ">"), want_h, "hash of a long n-gram")
        ix = ExplicitIndexer(["<" + w + ">", "x"], k, k)
        t.eq(ix.subword_indices(w, 3, with_ngrams=True), [("<" + w + ">", 3)], "explicit index of a long n-gram")
        t.event("long n-grams")
    t.event("long strings")
    t.sig("long", len(w), lo, hi)


def every_char(t, r):
    """All code points, a block per case."""
    n_blocks = 512
    size = 0x110000 // n_blocks
    k = t.idx % n_blocks
    step = 1
    e, nb = r.randint(1, 63), r.randint(1, U32)
    fi, ft = FinalfusionHashIndexer(e, 1, 2), FastTextIndexer(nb, 1, 2)
    cps = [c for c in range(k * size + (t.idx // n_blocks) % step, (k + 1) * size, step) if not 0xd800 <= c < 0xe000]
    s = "".join(map(chr, cps))
    g = ref.ngrams(s, 1, 2, False)
    t.eq(ngrams(s, 1, 2, False), g, "n-grams")
    t.eq(fi.subword_indices(s, 0, False), [ref.fifu_hash(x) & (2**e - 1) for x in g], "finalfusion indices of block", k)
    t.eq(ft.subword_indices(s, 0, False), [ref.ft_hash(x) % nb for x in g], "fastText indices of block", k)
    t.event("code points", len(cps))


WORKLOADS = dict(extraction=(extraction, 1500, 60000), finalfusion=(finalfusion, 1200, 40000), fasttext=(fasttext, 1200, 40000),
                 explicit=(explicit, 1200, 40000), defaults=(defaults, 60, 1000), long_strings=(long_strings, 16, 160),
                 every_char=(every_char, 512, 1536))
