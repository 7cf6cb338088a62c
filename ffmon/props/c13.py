"""C13: similarity queries."""
import numpy as np

from ffmon import gen, lib
from ffmon.props.c07 import make


class Sims:
    """Reference similarities with error bounds."""
    def __init__(self, e):
        n = len(e.vocab.words)
        self.words = e.vocab.words
        self.m = e.storage.dense().astype(np.float64)[:n]
        self.tol = np.broadcast_to(lib.pq_tol(e.storage), e.storage.shape)[:n]

    def __call__(self, q, q_err=None):
        q = np.asarray(q, np.float64)
        d = len(q)
        tol = np.abs(self.m) @ np.abs(q) * 3e-7 * (d + 4) + self.tol @ np.abs(q) + 1e-30
        if q_err is not None:
            tol = tol + np.abs(self.m) @ q_err
        return self.m @ q, tol


def judge(t, res, sims, tol, e, skip, k, what):
    """The list of results against the reference similarities."""
    t.check(isinstance(res, list), what, "returns", type(res).__name__)
    words = e.vocab.words
    eligible = [i for i, w in enumerate(words) if w not in skip]
    want_n = min(k, len(eligible))
    got = [(x.word, float(x.similarity)) for x in res]
    t.eq(len(got), want_n, what, f"number of results (k={k}, {len(words)} words, {len(skip)} skipped)")
    ids = []
    for w, s in got:
        t.check(w in e.vocab.index, what, "unknown word", repr(w))
        t.check(w not in skip, what, "skipped word", repr(w), "returned")
        i = e.vocab.index[w]
        ids.append(i)
        t.check(abs(s - sims[i]) <= tol[i], what, f"similarity of {w!r} is {s}, want {sims[i]} +- {tol[i]}")
    t.eq(len(set(ids)), len(ids), what, "repeated words", got)
    for (w1, s1), (w2, s2) in zip(got, got[1:]):
        t.check(s1 >= s2, what, f"not in descending order: {w1!r} {s1} before {w2!r} {s2}")
    if ids and len(ids) < len(eligible):
        worst = min(range(len(ids)), key=lambda j: sims[ids[j]])
        wi = ids[worst]
        inn = set(ids)
        for i in eligible:
            if i not in inn:
                t.check(sims[i] - tol[i] <= sims[wi] + tol[wi], what,
                        f"{words[i]!r} ({sims[i]}) is nearer than {words[wi]!r} ({sims[wi]})")
        t.event("rankings with left out words")
    t.event("results judged", len(got))
    if len(eligible) < k:
        t.event("fewer eligible words than k")


def a_k(r, n):
    return r.choice([0, 1, 1, 2, 3, 10, n, n - 1, n + 1, n + 5, 2 * n + 3, r.randint(0, n + 2)]) if n > 0 else r.choice([0, 1, 10])


def the_k(r, n):
    return max(0, a_k(r, n))


def word_queries(t, r):
    e, emb = make(t, r, mk=r.choice([None, "dups", "ints", "unit", "tiny", "huge"]), hi=40)
    ref_ = Sims(e)
    t.sample(**gen.describe(e))
    n = len(e.vocab.words)
    for _ in range(6):
        w = r.choice(e.vocab.words) if n and r.p(0.55) else gen.oov(r, e.vocab)
        k = the_k(r, n)
        t.note("query", w, "k", k)
        what = f"word_similarity({w!r}, k={k})"
        res = emb.word_similarity(w, k)
        q = emb.embedding(w)
        if e.vocab.idx(w) is None:
            t.check(res is None, what, "has no vector but results", res)
            t.event("queries without a vector")
            continue
        sims, tol = ref_(q)
        judge(t, res, sims, tol, e, {w}, k, what)
        if k == 10 or r.p(0.2):
            judge(t, emb.word_similarity(w), sims, tol, e, {w}, 10, f"word_similarity({w!r})")
            t.event("default k")
        t.event("known query words" if w in e.vocab.index else "unknown query words")
        t.sig("w", w, k, n, e.storage.shape)


def skips(r, e):
    ws = e.vocab.words
    s = set(r.sample(ws, r.randint(0, len(ws)))) if r.p(0.5) else set(r.sample(ws, min(len(ws), r.randint(0, 3))))
    for _ in range(r.choice([0, 0, 1, 3, 20])):
        s.add(gen.oov(r, e.vocab))
    if r.p(0.1):
        s |= set(ws)
    return s


def vector_queries(t, r):
    e, emb = make(t, r, mk=r.choice([None, "dups", "ints", "unit"]), hi=40)
    ref_ = Sims(e)
    n, d = len(e.vocab.words), e.storage.shape[1]
    for _ in range(6):
        k = the_k(r, n)
        q = gen.matrix(r, 1, d)[0]
        if n and r.p(0.3):
            q = np.asarray(e.storage.dense()[r.randrange(n)], np.float32).copy()
        if r.p(0.1):
            q = np.zeros(d, np.float32)
        s = skips(r, e)
        t.note("vector query", q, "k", k, "skip", s)
        sims, tol = ref_(q)
        t.event("skipped words", len(s & set(e.vocab.words)))
        t.event("skipped strings outside the vocabulary", len(s - set(e.vocab.words)))
        if r.p(0.3):
            judge(t, emb.embedding_similarity(q, k=k), sims, tol, e, set(), k, f"embedding_similarity(k={k})")
        elif r.p(0.2):
            judge(t, emb.embedding_similarity(q, skip=s), sims, tol, e, s, 10, "embedding_similarity(skip)")
        else:
            keep = set(s)
            judge(t, emb.embedding_similarity(q, k, s), sims, tol, e, s, k, f"embedding_similarity(k={k}, skip={len(s)})")
            t.eq(s, keep, "skip set changed")
        t.event("vector queries")
        t.sig("v", q.tobytes(), k, n, sorted(s))


def large(t, r):
    """Thousands of candidates, near ties."""
    n, d = r.choice([500, 3000, 3000, 70000]), r.choice([2, 5, 50])
    if t.idx % 8 == 2:
        n, d = 150000, r.choice([2, 5, 30])
    if t.idx % 8 == 5:
        n, d = r.choice([20, 300]), r.choice([1025, 4097, 9000])
    ws = gen.cheap_words(r, n)
    m = gen.matrix(r, n, d, r.choice(["normal", "unit", "dups", "ints"]))
    e = gen.E(gen.V("simple", ws), gen.S("nd", m))
    emb = lib.embeddings(e)
    ref_ = Sims(e)
    for _ in range(5):
        k = r.choice([1, 10, 100, n - 1, n, n + 1] if n < 5000 else [1, 10, 300, 5000, n - 1, n + 1])
        w = r.choice(ws)
        sims, tol = ref_(m[e.vocab.index[w]])
        judge(t, emb.word_similarity(w, k), sims, tol, e, {w}, k, f"large word_similarity k={k}")
        s = set(r.sample(ws, r.choice([0, 10, n - 1] if n < 5000 else [0, 10, 5000, n - 100])))
        q = gen.matrix(r, 1, d, "normal")[0]
        sims, tol = ref_(q)
        judge(t, emb.embedding_similarity(q, k, s), sims, tol, e, s, k, f"large embedding_similarity k={k}")
        t.sig("large", n, d, k, w)
    t.event("large vocabularies")


def updated(t, r):
    """Answers follow changes of the storage in place and of the norms."""
    e, emb = make(t, r, skind="nd", lo=2, hi=20, mk=r.choice([None, "unit", "ints"]))
    ws = e.vocab.words
    if not ws or not emb.storage.flags.writeable:
        return
    for _ in range(3):
        w, k = r.choice(ws), the_k(r, len(ws))
        sims, tol = Sims(e)(emb.embedding(w))
        judge(t, emb.word_similarity(w, k), sims, tol, e, {w}, k, f"word_similarity({w!r}, k={k}) after changes in place")
        i = r.randrange(e.storage.shape[0])
        row = gen.matrix(r, 1, e.storage.shape[1], r.choice(["normal", "unit", "ints"]))[0]
        m = np.array(e.storage.matrix)
        z = r.randrange(3)
        if z == 0:
            emb.storage[i] = row
            m[i] = row
        elif z == 1:
            emb.storage[:] = np.asarray(emb.storage)[::-1].copy()
            m = m[::-1].copy()
        else:
            emb.storage[i:] *= np.float32(-2)
            m[i:] *= np.float32(-2)
        e = gen.E(e.vocab, gen.S("nd", m), e.norms, e.meta)
        if r.p(0.3):
            emb.norms = None
            e.norms = None
        t.event("queries after changes in place")
        t.sig("updated", w, k, z, m.tobytes())


class Result:
    def __init__(self, word, similarity):
        self.word, self.similarity = word, similarity


def infinite(t, r):
    """Infinite components and products beyond float32: the similarities are still ordered."""
    n, d = r.randint(1, 20), r.choice([1, 1, 2, 3, 5])
    m = gen.matrix(r, n, d, "normal")
    q = np.abs(gen.matrix(r, 1, d, "normal")[0]) + np.float32(0.5)
    big = r.choice(["inf", "max"])
    for i in range(n):
        if r.p(0.4):
            sign = r.choice([-1, 1])
            j = r.randrange(d)
            m[i] = np.abs(m[i]) * sign
            m[i, j] = sign * (np.inf if big == "inf" else 3e38)
    if big == "max":
        # past the largest number even for the smallest query component
        q *= np.float32(8)
    e = gen.E(gen.V("simple", gen.words(r, n)), gen.S("nd", m))
    emb = lib.embeddings(e, r)
    s = skips(r, e) if r.p(0.5) else set()
    k = the_k(r, n)
    t.note("infinite", big, m, q, "k", k, "skip", s)
    with np.errstate(all="ignore"):
        res = emb.embedding_similarity(q, k, s)
        x = m.astype(np.float64) @ q.astype(np.float64)
        tol = np.abs(m.astype(np.float64)) @ q.astype(np.float64) * 3e-7 * (d + 4)
    far = np.abs(x) > 3.5e38
    x = np.where(far, np.sign(x) * 1e300, x)
    tol = np.where(far, 0, tol)
    res = [Result(y.word, float(np.sign(y.similarity) * 1e300 if np.isinf(y.similarity) else y.similarity)) for y in res]
    judge(t, res, x, tol, e, s, k, f"embedding_similarity(k={k}) with infinite similarities")
    t.event("infinite similarities", int(far.sum()))
    t.sig("inf", m.tobytes(), k)


WORKLOADS = dict(infinite=(infinite, 300, 8000), updated=(updated, 600, 15000), word_queries=(word_queries, 1500, 60000), vector_queries=(vector_queries, 1500, 60000), large=(large, 40, 1000))
