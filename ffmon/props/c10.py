"""C10: the native subword code under AddressSanitizer and UndefinedBehaviorSanitizer."""
import ctypes
import gc
import sys
import threading

from finalfusion.subword import ExplicitIndexer, FastTextIndexer, FinalfusionHashIndexer, ngrams
from ffmon import gen, ref
from ffmon.props.c09 import U32, offset, string, the_range


def setup(req):
    """The sanitizer runtime must be there, otherwise nothing is decided."""
    global live_bytes
    f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    f.restype = ctypes.c_size_t
    live_bytes = f


def fresh(r, w):
    """A string object of its own that is freed after the call."""
    return "".join(list(w)) if len(w) != 1 else (w + "\0")[:1]


def indexers(r, w, lo, hi):
    e = r.choice([1, 2, 8, 21, 31, 32, 33, 62, 63])
    n = r.choice([1, 2, 3, 10, 2000000, 2**31 - 1, 2**31, 2**31 + 1, U32 - 1, U32])
    out = [FinalfusionHashIndexer(e, lo, hi)]
    try:
        w.encode("utf-8")
        out.append(FastTextIndexer(n, lo, hi))
    except UnicodeEncodeError:
        ix = FastTextIndexer(n, lo, hi)
        out.append(ix)
    grams = list(dict.fromkeys(ref.ngrams(w, lo, min(hi, lo + 3))[::2][:100] + [string(r)]))
    if r.p(0.5):
        out.append(ExplicitIndexer(grams, lo, hi))
    else:
        m = r.randint(1, len(grams))
        vals = list(range(m)) + [r.randrange(m) for _ in range(len(grams) - m)]
        out.append(ExplicitIndexer(grams, lo, hi, dict(zip(grams, vals))))
    return out


def calls(t, r):
    """Valid calls; results are kept while inputs and indexers are freed."""
    kept = []
    for _ in range(12):
        w = string(r, True)
        lo, hi = the_range(r, w)
        t.note("call", repr(w), lo, hi)
        b = r.p(0.5)
        want = ref.ngrams(w, lo, hi, b)
        kept.append((ngrams(fresh(r, w), lo, hi, b), want))
        for ix in indexers(r, w, lo, hi):
            off = r.choice([offset(r), 2**64 - 1, 2**63])
            try:
                a = ix.subword_indices(fresh(r, w), off, b)
                c = ix.subword_indices(fresh(r, w), off, b, True)
                for g in want[:4]:
                    ix(fresh(r, g))
            except (UnicodeEncodeError, OverflowError):
                t.event("unencodable strings refused")
                continue
            t.eq(len(a), len(c), "number of indices of", repr(w))
            t.check(all(type(i) is int for i in a), "indices are not integers", a)
            if not isinstance(ix, ExplicitIndexer):
                t.eq(len(a), len(want), "number of indices of", repr(w))
                kept.append(([g for g, _ in c], want))
            repr(ix)
            t.check(ix == ix and not ix == 3, "indexer equality")
            t.event("native calls", 4)
        t.sig(w, lo, hi, b)
    junk = [chr(0x100 + i) * 40 for i in range(200)]
    del junk
    for got, want in kept:
        t.eq(got, want, "result after inputs were freed")
    t.sample(string=repr(w)[:80], min_n=lo, max_n=hi)


def sizes(t, r):
    """String lengths around buffer and integer sizes, every UTF-8 width."""
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095,
                  4096, 4097])
    c = r.choice(["a", "\x7f", "\x80", "é", "\u07ff", "\u0800", "日", "\uffff", "\U00010000", "👍", "\U0010ffff"])
    w = c * n
    if n and r.p(0.5):
        w = w[:-1] + r.choice("aé日👍\0")
    for lo, hi in ((1, 1), (1, 3), (3, 6), (max(1, n), n + 2), (n + 2, n + 2), (n + 3, U32), (max(1, n - 2), U32), (U32, U32)):
        for b in (True, False):
            want = (len(ref.ngrams(w, lo, hi, b)) if n <= 300 else None)
            res = [ngrams(w, lo, hi, b)]
            for ix in (FinalfusionHashIndexer(r.randint(1, 63), lo, hi), FastTextIndexer(r.choice([1, 7, U32]), lo, hi)):
                res.append(ix.subword_indices(w, 0, b))
                res.append(ix.subword_indices(w, 1, b, True))
            t.event("native calls", 5)
            if want is not None:
                t.eq([len(x) for x in res], [want] * 5, "number of n-grams", repr(c), n, lo, hi, b)
            t.sig("size", c, n, lo, hi, b)
    t.event("string sizes")


def huge(t, r):
    """Strings of up to millions of bytes."""
    n = r.choice([100000, 300000, 1000000])
    w = r.choice(["ab", "é", "日本", "👍a"]) * (n // 2)
    for ix in (FinalfusionHashIndexer(40, 3, 3), FastTextIndexer(2000000, 3, 3), ExplicitIndexer(["ab", "日本日"], 3, 3)):
        res = ix.subword_indices(w)
        t.check(len(res) in (0, len(w)), "number of indices of a huge string", len(res)) if not isinstance(ix, ExplicitIndexer) else None
        ix(w) if not isinstance(ix, ExplicitIndexer) else None
    t.eq(len(ngrams(w, 4, 4)), len(w) - 1, "number of n-grams of a huge string")
    for lo in (len(w), len(w) + 2, len(w) + 3):
        t.eq(len(ngrams(w, lo, U32)), max(0, (len(w) + 3 - lo) * (len(w) + 4 - lo) // 2), "few n-grams of a huge string")
        FastTextIndexer(3, lo, U32).subword_indices(w)
        FinalfusionHashIndexer(3, lo, U32).subword_indices(w)
    t.event("huge strings")
    t.sig("huge", w[:4], n)


class Int:
    """Something that only pretends to be an integer."""
    def __index__(self):
        raise RuntimeError("no")


BAD_RANGE = [(0, 0), (0, 3), (4, 3), (U32, 1), (-1, 3), (3, -1), (-5, -2), (2**32, 2**32), (1, 2**32), (1, 2**64), (-2**70, 3),
             (None, 3), (3, None), ("3", 6), (3, "6"), ([], 6), (3, Int())]
BAD_WORD = [None, b"abc", 5, 1.5, ["a"], ("a", "b"), bytearray(b"x"), object()]
BAD_OFFSET = [-1, -2**63, 2**64, 2**70, "1", None, []]
BAD_EXP = [0, -1, 64, 65, 2**32, 2**64, None, "21", []]
BAD_BUCKETS = [0, -1, 2**32, 2**33, 2**64, None, "7", []]


def bad_calls():
    good = dict(ff=FinalfusionHashIndexer(10, 2, 4), ft=FastTextIndexer(100, 2, 4), ex=ExplicitIndexer(["ab", "<a"], 2, 4))
    for lo, hi in BAD_RANGE:
        yield "ngrams range", (lo, hi), lambda lo=lo, hi=hi: ngrams("abcd", lo, hi)
        yield "finalfusion range", (lo, hi), lambda lo=lo, hi=hi: FinalfusionHashIndexer(10, lo, hi)
        yield "fastText range", (lo, hi), lambda lo=lo, hi=hi: FastTextIndexer(10, lo, hi)
        yield "explicit range", (lo, hi), lambda lo=lo, hi=hi: ExplicitIndexer(["a"], lo, hi)
        yield "explicit range, index", (lo, hi), lambda lo=lo, hi=hi: ExplicitIndexer(["a"], lo, hi, {"a": 0})
    for w in BAD_WORD:
        yield "ngrams", w, lambda w=w: ngrams(w)
        yield "ngrams", w, lambda w=w: ngrams(w, 1, 2, False)
        for k, ix in good.items():
            for b in (True, False):
                for g in (True, False):
                    yield f"{k} indices", (w, b, g), lambda w=w, ix=ix, b=b, g=g: ix.subword_indices(w, 0, b, g)
            if k != "ex":
                yield f"{k} call", w, lambda w=w, ix=ix: ix(w)
    for o in BAD_OFFSET:
        for k, ix in good.items():
            yield f"{k} offset", o, lambda o=o, ix=ix: ix.subword_indices("abc", o)
            yield f"{k} offset", o, lambda o=o, ix=ix: ix.subword_indices("abc", o, True, True)
    for e in BAD_EXP:
        yield "exponent", e, lambda e=e: FinalfusionHashIndexer(e)
    for n in BAD_BUCKETS:
        yield "buckets", n, lambda n=n: FastTextIndexer(n)
    for g in (None, 5, Int()):
        yield "explicit n-grams", g, lambda g=g: ExplicitIndexer(g)
    for i in (5, [0], "x", {"a": None}, {"a": "0"}, {"a": [1]}):
        yield "explicit index", i, lambda i=i: ExplicitIndexer(["a"], 1, 2, i)
    for s in ("\ud800", "a\udfffb", "\ud83d"):
        yield "fastText surrogate", s, lambda s=s: good["ft"].subword_indices(s)
        yield "fastText surrogate call", s, lambda s=s: good["ft"](s)


def invalid(t, r):
    """Invalid arguments raise; afterwards everything still works."""
    cs = list(bad_calls())
    r.shuffle(cs)
    for what, arg, f in cs:
        t.note(what, arg)
        try:
            res = f()
        except Exception as e:
            t.event("invalid arguments refused")
            t.sig(what, repr(arg)[:60], type(e).__name__)
        else:
            t.check(False, "invalid argument accepted:", what, arg, "gives", res)
    for ix, args in ((FinalfusionHashIndexer(9, 2, 3), [(0,), (64,), (9, 0, 3), (9, 3, 2), (9, 2, 2**33)]),
                     (FastTextIndexer(9, 2, 3), [(0,), (2**32,), (9, 0, 3), (9, 3, 2), (9, 2, 2**33)]),
                     (ExplicitIndexer(["ab"], 2, 3), [(["a", "a"],), (["a"], 3, 2), (None,), (["a"], 1, 2, {"b": 0})])):
        for a in args:
            t.raises(Exception, lambda: ix.__init__(*a), "re-initialization with", a)
            ix.subword_indices("some wörd")
            ix("ab")
            repr(ix)
            t.event("failed re-initializations")


def leak_kinds(r):
    ff, ft = FinalfusionHashIndexer(17, 2, 5), FastTextIndexer(1000, 2, 5)
    grams = ref.ngrams("überspringen", 2, 5)
    grams = list(dict.fromkeys(grams))
    idx = {g: i // 2 for i, g in enumerate(grams)}
    ex, ex2 = ExplicitIndexer(grams, 2, 5), ExplicitIndexer(grams, 2, 5, idx)
    w = r.choice(["überspringen", "plain", "日本語の単語", "👍👍 thumbs", "<>"])

    def refused(f):
        try:
            f()
        except Exception:
            pass
    yield "ngrams", lambda: ngrams(w, 2, 5)
    yield "ngrams without brackets", lambda: ngrams(w, 1, 30, False)
    for n, ix in (("ff", ff), ("ft", ft), ("explicit", ex), ("explicit shared", ex2)):
        yield f"{n} indices", lambda ix=ix: ix.subword_indices(w, 2**40)
        yield f"{n} with n-grams", lambda ix=ix: ix.subword_indices(w, 2**40, with_ngrams=True)
        yield f"{n} without brackets", lambda ix=ix: ix.subword_indices(w, 5, False, True)
        yield f"{n} call", lambda ix=ix: ix("übe")
        yield f"{n} short", lambda ix=ix: ix.subword_indices("", 5, False, True)
        yield f"{n} None", lambda ix=ix: refused(lambda: ix.subword_indices(None))
        yield f"{n} bad offset", lambda ix=ix: refused(lambda: ix.subword_indices(w, -1))
        yield f"{n} repr", lambda ix=ix: repr(ix)
        yield f"{n} equality", lambda ix=ix: (ix == ix, ix == 3, ix == ff)
        yield f"{n} properties", lambda ix=ix: (ix.min_n, ix.max_n, ix.upper_bound)
    yield "ff construction", lambda: FinalfusionHashIndexer(63, 1, 2)
    yield "ft construction", lambda: FastTextIndexer(U32, 1, 2)
    yield "explicit construction", lambda: ExplicitIndexer(list(grams), 2, 5)
    yield "explicit construction with index", lambda: ExplicitIndexer(list(grams), 2, 5, dict(idx))
    yield "bad construction", lambda: (refused(lambda: FinalfusionHashIndexer(64)), refused(lambda: FastTextIndexer(0)),
                                       refused(lambda: ExplicitIndexer(["a", "a"])))
    yield "bad explicit index", lambda: refused(lambda: ExplicitIndexer(["a", "b"], 1, 2, {"a": 0, "b": 5}))
    yield "bad range", lambda: refused(lambda: ngrams("abc", 3, 2))
    yield "surrogates", lambda: (refused(lambda: ft("\ud800")), refused(lambda: ft.subword_indices("a\udfff")))
    yield "explicit contains", lambda: ("über" in ex, ["über", "x"] in ex, 5 in ex, list(ex), len(ex))
    yield "explicit item", lambda: (ex[grams[0]], refused(lambda: ex["zzz"]))


def leaks(t, r):
    """Live bytes (sanitizer allocator) do not grow with the number of calls."""
    kinds = list(leak_kinds(r))
    name, f = kinds[t.idx % len(kinds)]
    n = 150
    t.note("leak monitor", name)
    gc.collect()
    gc.disable()
    try:
        for _ in range(n):
            f()
        gc.collect()
        seen = [live_bytes()]
        for _ in range(5):
            for _ in range(n):
                f()
            gc.collect()
            seen.append(live_bytes())
    finally:
        gc.enable()
    growth = [b - a for a, b in zip(seen, seen[1:])]
    t.check(min(growth) < 4 * n, name, f"leaks: live bytes grow by {growth} in rounds of {n} calls")
    t.event("call kinds monitored for leaks")
    t.sig("leak", name)
    t.sample(leak_kind=name, growth=growth)


def threads(t, r):
    """Shared indexers called from several threads."""
    ws = [string(r) for _ in range(8)]
    ixs = [FinalfusionHashIndexer(20, 2, 4), FastTextIndexer(999, 2, 4), ExplicitIndexer(["ab", "<a", "b>"], 2, 4)]
    jobs = [(ix, w) for ix in ixs for w in ws]
    want = [ix.subword_indices(w, 3, True, True) for ix, w in jobs]
    bad = []

    def run(k):
        for j in range(len(jobs) * 3):
            i = (j * (k * 2 + 1)) % len(jobs)
            ix, w = jobs[i]
            if ix.subword_indices(w, 3, True, True) != want[i]:
                bad.append((k, i))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=run, args=(k,)) for k in range(4)]
        [x.start() for x in th]
        [x.join() for x in th]
    finally:
        sys.setswitchinterval(old)
    t.check(not bad, "concurrent calls give other results", bad[:3])
    t.event("concurrent calls", len(jobs) * 12)
    t.sig("threads", ws)


WORKLOADS = dict(calls=(calls, 900, 30000), sizes=(sizes, 300, 6000), huge=(huge, 6, 60), invalid=(invalid, 16, 200),
                 leaks=(leaks, 106, 1060), threads=(threads, 40, 800))
