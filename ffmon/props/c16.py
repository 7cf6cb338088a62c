"""C16: fastText models."""
import numpy as np

from finalfusion.compat import load_fasttext, write_fasttext
from ffmon import gen, lib, ref
from ffmon.ref import FT

KW = dict(nul=False)


def model(r, **kw):
    ws = gen.some_words(r, hi=14, **KW) if "ws" not in kw else kw["ws"]
    lo = r.choice([1, 2, 3, 3, 3, 5])
    hi = lo + r.choice([0, 1, 2, 3])
    b = r.choice([1, 2, 3, 10, 50, 100, 257]) if "buckets" not in kw else kw["buckets"]
    d = r.choice([1, 2, 3, 5, 10, 16]) if "dims" not in kw else kw["dims"]
    cfg = [d, r.randint(0, 20), r.randint(0, 100), r.randint(0, 50), r.randint(0, 20), r.randint(1, 5), r.randint(1, 3),
           r.randint(1, 3), b, lo, hi, r.randint(0, 1000), r.choice([0.0, 0.0001, 1e-3, 0.5, r.random()])]
    m = gen.matrix(r, len(ws) + b, d, kw.get("mk"))
    return FT(cfg, ws, [r.randrange(10**6) for _ in ws], m, r.randrange(10**9))


def near(t, vec, norm, mean, bound, *msg):
    """vec: unit vector, norm: its length; mean: the unnormalized vector; bound: elementwise error."""
    v = np.asarray(vec, np.float64)
    t.check(np.all(np.isfinite(v)) and np.isfinite(norm), *msg, "not finite", v, norm)
    n = float(np.linalg.norm(mean))
    eb = float(np.linalg.norm(bound))
    t.check(abs(norm - n) <= eb + 1e-5 * n, *msg, f"norm {norm}, want {n}")
    t.close(v * float(norm), mean, bound + 2e-5 * np.abs(mean) + 1e-5 * n, *msg, "norm times vector")
    if n > 1e3 * eb:
        t.close(v, mean / n, bound / n * 3 + 2e-5, *msg, "unit vector")


def check_loaded(t, got, ft, what, words=None):
    """Loaded embeddings against the model file."""
    v = ft.vocab(words)
    lib.check_vocab(t, got.vocab, v, what)
    t.check(got.metadata is not None, what, "no metadata")
    t.eq(gen.canon(dict(got.metadata)), gen.canon(ft.metadata()), what, "metadata")
    nw = len(v.words)
    s = np.asarray(got.storage)
    t.eq(s.shape, ft.matrix.shape, what, "shape")
    t.bits(s[nw:], ft.matrix[nw:], what, "bucket vectors")
    t.check(got.norms is not None and len(got.norms) == nw, what, "norms")
    src = ft.vocab()
    m = ft.matrix.astype(np.float64)
    for i, w in enumerate(v.words):
        idx = [i] + v.sub(w)
        mean = m[idx].mean(0)
        bound = np.abs(m[idx]).sum(0) * 3e-7 * (len(idx) + 4) / len(idx) + 1e-30
        if not np.any(m[idx]):
            t.check(not np.any(s[i]) and got.norms[i] == 0, what, "null word vector of", repr(w), s[i])
            t.event("null word vectors")
            continue
        near(t, s[i], got.norms[i], mean, bound, what, f"word {i} {w!r}")
    t.event("words of loaded models", nw)
    del src


def loading(t, r):
    ft = model(r)
    t.note("fastText", ft.cfg, ft.words)
    t.sample(cfg=list(ft.cfg), words=[repr(w)[:40] for w in ft.words[:6]])
    p = t.file(ref.write_ft(ft, output=r.p(0.7)), r.choice(["", ".bin"]))
    lossy = r.p(0.3)
    got = load_fasttext(p, lossy=lossy) if lossy or r.p(0.5) else load_fasttext(p)
    check_loaded(t, got, ft, "loaded")
    # unknown words: normalized sums of bucket vectors
    from ffmon.props.c07 import Dense
    den = Dense(gen.S("nd", ft.matrix))
    v = ft.vocab()
    for _ in range(3):
        w = gen.oov(r, v)
        idx = v.sub(w)
        if idx:
            vec, n = got.embedding_with_norm(w)
            den.oov(t, vec, idx, n, "unknown word", repr(w))
            t.event("unknown words")
    t.event("models loaded")
    t.sig(ft.cfg, ft.words)


def expected_original(e):
    """The fastText matrix that yields the embeddings e, float64, with an error bound for the means."""
    nw = len(e.vocab.words)
    m = e.storage.dense().astype(np.float64)
    tol = np.broadcast_to(lib.pq_tol(e.storage), m.shape)
    known = m[:nw] * (1 if e.norms is None else e.norms.astype(np.float64)[:, None])
    out = m.copy()
    bound = np.zeros_like(m)
    bound[nw:] = tol[nw:]
    for i, w in enumerate(e.vocab.words):
        idx = e.vocab.sub(w)
        out[i] = known[i] * (len(idx) + 1) - m[idx].sum(0)
        nn = 1 if e.norms is None else abs(float(e.norms[i]))
        bound[i] = (np.abs(known[i]) * (len(idx) + 1) + np.abs(m[idx]).sum(0)) * 4e-7 * (len(idx) + 4) + \
            tol[i] * nn * (len(idx) + 1) + tol[idx].sum(0) + 1e-30
    return out, bound, known


def check_written(t, p, e, what):
    data = open(p, "rb").read()
    try:
        ft, pos = ref.parse_ft(data)
        ref.parse_ft_output(data, pos, ft)
    except Exception as x:
        t.check(False, what, f"is not a fastText model: {x}")
    v = e.vocab
    t.eq(ft.words, v.words, what, "words")
    t.eq((ft.cfg[0], ft.cfg[8], ft.cfg[9], ft.cfg[10]), (e.storage.shape[1], v.buckets, v.min_n, v.max_n), what, "configuration")
    # documented values of what embeddings do not hold: window size, minimum count, negative samples, word n-grams,
    # hierarchical softmax, CBOW, learning rate update, sampling threshold
    t.eq((ft.cfg[1], *ft.cfg[3:8], *ft.cfg[11:]), (0, 0, 0, 1, 1, 1, 0, 0), what, "documented defaults")
    t.eq(ft.matrix.shape, tuple(e.storage.shape), what, "matrix shape")
    want, bound, _ = expected_original(e)
    nw = len(v.words)
    if e.storage.kind == "nd":
        t.bits(ft.matrix[nw:], e.storage.matrix[nw:], what, "bucket vectors")
    else:
        t.close(ft.matrix[nw:], want[nw:], bound[nw:], what, "bucket vectors")
    for i in range(nw):
        t.close(ft.matrix[i], want[i], bound[i], what, f"original vector of word {i} {v.words[i]!r}")
    t.event("models written")
    return ft


def embeddings(r, t):
    """Embeddings with a fastText vocabulary."""
    e = gen.embeddings(r, "ft", r.choice(["nd", "nd", "pq"]), hi=14, max_sub=120, **KW)
    if e.norms is None and r.p(0.4) and e.storage.kind == "nd":
        # unit vectors with norms, as loaded from a model
        m = e.storage.matrix
        n = np.linalg.norm(m[:len(e.vocab.words)], axis=1).astype(np.float32)
        m[:len(n)] /= np.where(n == 0, 1, n)[:, None]
        e.norms = n
    return e


def writing(t, r):
    e = embeddings(r, t)
    t.note(gen.describe(e))
    emb = lib.embeddings(e, r)
    if r.p(0.4):
        q = t.path()
        emb.write(q)
        emb = lib.load_finalfusion(q, mmap=r.p(0.5))
    p = t.path()
    write_fasttext(p, emb)
    ft = check_written(t, p, e, "written")
    # and load it again
    got = load_fasttext(p)
    check_loaded(t, got, ft, "loaded again")
    nw = len(e.vocab.words)
    _, bound, known = expected_original(e)
    s = np.asarray(got.storage)
    for i, w in enumerate(e.vocab.words):
        k = len(e.vocab.sub(w)) + 1
        near(t, s[i], got.norms[i], known[i], bound[i] * 2 / k, "loaded again", repr(w))
    t.event("round trips of embeddings")
    t.event(f"storage {e.storage.kind} norms={e.norms is not None}")
    t.sig(e.vocab.words, e.storage.kind, e.storage.shape, e.norms is None)
    del nw


def round_trip(t, r):
    """model file -> embeddings -> model file."""
    ft = model(r)
    p = t.file(ref.write_ft(ft))
    emb = load_fasttext(p)
    if r.p(0.4):
        q = t.path()
        emb.write(q)
        emb = lib.load_finalfusion(q, mmap=r.p(0.5))
    out = t.path()
    write_fasttext(out, emb)
    back, _ = ref.parse_ft(open(out, "rb").read())
    t.note("round trip", ft.cfg, ft.words)
    t.eq(back.words, ft.words, "words")
    t.eq((back.cfg[0], back.cfg[8:11]), (ft.cfg[0], ft.cfg[8:11]), "configuration")
    nw = len(ft.words)
    t.bits(back.matrix[nw:], ft.matrix[nw:], "bucket vectors after a round trip")
    v = ft.vocab()
    m = ft.matrix.astype(np.float64)
    for i, w in enumerate(ft.words):
        idx = v.sub(w)
        absum = np.abs(m[[i] + idx]).sum(0)
        n = float(np.linalg.norm(absum))
        t.close(back.matrix[i], m[i], (absum + n) * 1e-6 * (len(idx) + 6) + 1e-30, "original vector after a round trip", repr(w))
    t.event("round trips of models")
    t.sig("rt", ft.cfg, ft.words)


def refused(t, r):
    """Unsupported models and vocabularies."""
    ft = model(r, ws=gen.words(r, 3, **KW), buckets=5)
    ok = t.file(ref.write_ft(ft))
    load_fasttext(ok)
    bad = dict(labels=dict(labels=1), prune=dict(prune=0), prune5=dict(prune=5), quant=dict(quant=1), magic=dict(magic=793712313),
               version=dict(version=11), entry=dict(entry_types=[0, 1, 0]))
    for k, kw in bad.items():
        for lossy in (False, True):
            t.raises(Exception, lambda: load_fasttext(t.file(ref.write_ft(ft, **kw)), lossy), "unsupported model", k)
            t.event("unsupported models refused")
    for rows in (-1, 1):
        x = FT(ft.cfg, ft.words, ft.counts, gen.matrix(r, 8 + rows, ft.cfg[0]))
        t.raises(Exception, lambda: load_fasttext(t.file(ref.write_ft(x))), "matrix with", rows, "rows")
    for kind in ("simple", "ff", "explicit"):
        e = gen.embeddings(r, kind, ascii_ws=False, empty=False, **KW)
        emb = lib.embeddings(e)
        t.raises(Exception, lambda: write_fasttext(t.path(), emb), "writing a vocabulary", kind)
        t.event("unsupported vocabularies refused")
    t.sig("refused", ft.words)


def large(t, r):
    k = t.idx % 4
    if k == 0:
        ws = gen.cheap_words(r, r.choice([500, 3000]))
        ft = model(r, ws=ws, buckets=r.choice([100, 5000]), dims=r.choice([3, 50]))
    elif k == 1:
        ws = gen.cheap_words(r, 20 if t.idx > 1 else 70000)
        ft = model(r, ws=ws, buckets=r.choice([100, 70000]), dims=2)
    elif k == 2:
        ws = gen.words(r, r.choice([1, 5]), **KW)
        ft = model(r, ws=ws, buckets=r.choice([1, 20]), dims=r.choice([300, 1025, 4097, 9000]))
    else:
        ws = list(dict.fromkeys(gen.words(r, 3, **KW) + [gen.long_word(r, n) for n in (255, 256, 1000, 4100, 66000 if t.idx % 8 == 3 else r.choice([8200, 20000]))]))
        ft = model(r, ws=ws, buckets=r.choice([20, 500]), dims=3)
    p = t.file(ref.write_ft(ft))
    got = load_fasttext(p)
    check_loaded(t, got, ft, "large model")
    out = t.path()
    write_fasttext(out, got)
    back, _ = ref.parse_ft(open(out, "rb").read())
    t.eq(back.words, ft.words, "words")
    t.bits(back.matrix[len(ws):], ft.matrix[len(ws):], "bucket vectors")
    t.event("large models")


WORKLOADS = dict(loading=(loading, 1500, 50000), writing=(writing, 1500, 50000), round_trip=(round_trip, 1000, 30000),
                 refused=(refused, 60, 600), large=(large, 16, 200))
