"""C14: analogy queries."""
import numpy as np

from ffmon import gen, lib
from ffmon.props.c07 import make
from ffmon.props.c13 import Sims, judge, skips, the_k


def target(emb, a, b, c):
    """Normalized b - a + c with an elementwise error bound, or None for (nearly) null vectors."""
    va, vb, vc = (np.asarray(emb.embedding(w), np.float64) for w in (a, b, c))
    d = vb - va + vc
    n = float(np.linalg.norm(d))
    err = (np.abs(va) + np.abs(vb) + np.abs(vc)) * 5e-7
    e = float(np.linalg.norm(err))
    if n <= 50 * e or n == 0:
        return None, None, n, e
    return d / n, err / n * 2 + np.abs(d) / n * (e / n * 2 + 1e-6), n, e


def judge_answer(t, res, e, emb, ref_, abc, k, s, what):
    """The answers to an analogy whose words all have vectors; s: the words that are not eligible."""
    t.check(res is not None, what, "all words have vectors, but the result is None")
    q, err, n, en = target(emb, *abc)
    if q is None:
        # no direction: only count, eligibility and finiteness are determined
        lim = np.linalg.norm(ref_.m, axis=1) * 1.001 + 1e-6
        judge_free = [(x.word, float(x.similarity)) for x in res]
        eligible = [w for w in e.vocab.words if w not in s]
        t.eq(len(judge_free), min(k, len(eligible)), what, "number of results")
        for w, v in judge_free:
            t.check(w in e.vocab.index and w not in s, what, "ineligible word", repr(w))
            t.check(np.isfinite(v) and abs(v) <= lim[e.vocab.index[w]], what, "similarity", v)
        if n == 0 and not np.any(e.storage.dense()):
            t.check(all(v == 0 for _, v in judge_free), what, "similarity to the null vector", judge_free)
        t.event("queries with a null target")
        return
    sims, tol = ref_(q, err)
    judge(t, res, sims, tol, e, s, k, what)
    t.event("queries judged")


def query(t, r, e, emb, ref_, a, b, c, k, skip, what):
    args = {}
    if skip is not None or r.p(0.3):
        args["skip"] = skip
    if k != 1 or r.p(0.5):
        args["k"] = k
    keep = None if skip is None else set(skip)
    res = emb.analogy(a, b, c, **args)
    t.eq(skip, keep, "skip set changed")
    none = [w for w in (a, b, c) if e.vocab.idx(w) is None]
    t.note(what, a, b, c, k, skip)
    if none:
        t.check(res is None, what, f"{none[0]!r} has no vector, but the result is", res)
        t.event("queries without an answer")
        return
    s = {a, b, c} if skip is None else skip
    judge_answer(t, res, e, emb, ref_, (a, b, c), k, s, what)
    t.event("default skip" if skip is None else "explicit skip")


def pick(r, e, n):
    return r.choice(e.vocab.words) if n and r.p(0.75) else gen.oov(r, e.vocab)


def analogies(t, r):
    e, emb = make(t, r, mk=r.choice([None, "dups", "ints", "unit", "zeros", "tiny", "huge"]), hi=30)
    ref_ = Sims(e)
    t.sample(**gen.describe(e))
    n = len(e.vocab.words)
    for _ in range(6):
        a, b, c = (pick(r, e, n) for _ in range(3))
        if r.p(0.25):
            x = r.choice([(a, a, c), (a, b, a), (a, b, b), (a, a, a)])
            a, b, c = x
            t.event("repeated query words")
        skip = None if r.p(0.5) else r.choice([set(), {a}, {b}, {c}, {a, b}, {b, c}, skips(r, e)])
        k = r.choice([1, 1, the_k(r, n)])
        query(t, r, e, emb, ref_, a, b, c, k, skip, f"analogy({a!r}, {b!r}, {c!r}, k={k}, skip={skip})")
        t.sig(a, b, c, k, sorted(skip) if skip is not None else None, n)


def signs(t, r):
    """Well separated targets: the sign and role of each word matters."""
    d = r.choice([4, 8, 16])
    n = r.randint(6, 14)
    m = gen.matrix(r, n, d, "unit")
    ws = gen.words(r, n)
    i, j, l = r.sample(range(n), 3)
    # plant the answers of all sign/role confusions
    for x, (p, q, s) in enumerate([(j, i, l), (i, j, l), (l, i, j)]):
        v = m[p].astype(np.float64) - m[q] + m[s]
        o = [y for y in range(n) if y not in (i, j, l)][x]
        if np.linalg.norm(v) > 0.1:
            m[o] = (v / np.linalg.norm(v)).astype(np.float32)
    e = gen.E(gen.V("simple", ws), gen.S("nd", m))
    emb = lib.embeddings(e, r)
    ref_ = Sims(e)
    for k in (1, 2, n):
        query(t, r, e, emb, ref_, ws[i], ws[j], ws[l], k, None, f"planted analogy k={k}")
        query(t, r, e, emb, ref_, ws[i], ws[j], ws[l], k, set(), f"planted analogy k={k} no skip")
    t.event("planted analogies")
    t.sig("planted", ws[i], ws[j], ws[l])


def large(t, r):
    n, d = 70000 if t.idx % 10 == 3 else r.choice([300, 2000]), r.choice([3, 20])
    if t.idx % 8 == 5:
        n, d = r.choice([20, 300]), r.choice([1025, 4097, 9000])
    ws = gen.cheap_words(r, n)
    m = gen.matrix(r, n, d, r.choice(["normal", "unit", "ints"]))
    e = gen.E(gen.V("simple", ws), gen.S("nd", m))
    emb = lib.embeddings(e)
    ref_ = Sims(e)
    for _ in range(4):
        a, b, c = r.sample(ws, 3)
        k = r.choice([1, 10, n - 3, n - 2, n] if n < 5000 else [1, 10, 300, 5000, n - 2])
        query(t, r, e, emb, ref_, a, b, c, k, None, f"large analogy k={k}")
        query(t, r, e, emb, ref_, a, b, c, k, set(r.sample(ws, min(n, r.choice([1, 50, n] if n < 5000 else [1, 50, 5000, n - 50])))), f"large analogy k={k} skip")
    t.event("large vocabularies")


WORKLOADS = dict(analogies=(analogies, 2500, 90000), signs=(signs, 400, 10000), large=(large, 40, 1000))
