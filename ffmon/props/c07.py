"""C07: lookups of known and unknown words."""
import numpy as np

from ffmon import gen, lib, ref
from ffmon.lib import load_finalfusion


def make(t, r, **kw):
    """(model, library embeddings); in memory, loaded or memory-mapped."""
    e = gen.embeddings(r, **kw)
    how = r.choice(["memory", "memory", "eager", "mmap"])
    emb = lib.embeddings(e, r)
    if how != "memory":
        p = t.path()
        emb.write(p)
        emb = load_finalfusion(p, mmap=how == "mmap")
    t.note(how, gen.describe(e))
    t.event(f"embeddings {how}")
    return e, emb


class Dense:
    """What the storage denotes, with error bounds per element."""
    def __init__(self, s):
        self.s = s
        self.m = s.dense().astype(np.float64)
        self.tol = np.broadcast_to(lib.pq_tol(s), self.m.shape)
        self.exact = s.matrix if s.kind == "nd" else (lib.exact_pq(s) if s.projection is None else None)

    def known(self, t, got, i, *msg):
        g = np.asarray(got)
        t.eq(g.shape, (self.m.shape[1],), *msg, "shape")
        if self.exact is not None:
            t.bits(g, self.exact[i], *msg)
        else:
            t.close(g, self.m[i], self.tol[i], *msg)

    def oov(self, t, got, idxs, norm, *msg):
        """got: the vector; norm: its norm or None if the lookup does not return one."""
        g = np.asarray(got).astype(np.float64)
        t.eq(g.shape, (self.m.shape[1],), *msg, "shape")
        t.check(np.all(np.isfinite(g)), *msg, "not finite", g)
        want = self.m[idxs].sum(0)
        absum = np.abs(self.m[idxs]).sum(0)
        bound = self.tol[idxs].sum(0) + absum * 3e-7 * (len(idxs) + 4) + 1e-30
        total = float(np.linalg.norm(bound))
        length = float(np.linalg.norm(want))
        if not np.any(absum):
            t.event("null sums")
            t.check(not np.any(g), *msg, "sum of null vectors is not null", g)
            t.check(norm is None or norm == 0, *msg, "norm of a null vector", norm)
            return
        if norm is not None:
            t.check(np.isfinite(norm) and abs(norm - length) <= total + 1e-5 * length, *msg, f"norm {norm}, want {length}")
            t.close(g * float(norm), want, bound + 1e-5 * np.abs(want) + 1e-5 * length, *msg, "norm times vector")
        if length > 1e3 * total:
            t.event("unknown words with a direction")
            t.close(g, want / length, bound / length * 3 + 1e-5, *msg, "unit vector")
            t.check(abs(np.linalg.norm(g) - 1) < 1e-4, *msg, "length of the vector is not one")
        elif length <= total and not np.any(g):
            t.event("cancelled sums")


def is_number(x):
    return isinstance(x, (float, np.floating)) and not isinstance(x, np.ndarray)


SENT = np.float32(-12345.678)


def buffers(r, d):
    k = r.choice(["c", "c", "stride", "row", "neg", "f64"])
    if k == "stride":
        return np.full(2 * d + 1, SENT)[1:1 + 2 * d:2]
    if k == "row":
        return np.full((3, d), SENT)[1]
    if k == "neg":
        return np.full(d, SENT)[::-1]
    if k == "f64":
        return np.full(d, SENT, np.float64)
    return np.full(d, SENT)


def lookup(t, r, e, emb, den, w, default=True):
    v = e.vocab
    i = v.idx(w)
    d = e.storage.shape[1]
    kind = "known" if isinstance(i, int) else ("none" if i is None else "oov")
    t.event(f"lookups {kind}")
    t.eq(w in emb, kind == "known", "membership of", repr(w))
    what = f"{kind} word {w!r}"

    def right(got, norm, how):
        if kind == "known":
            den.known(t, got, i, what, how)
            if norm is not None:
                t.bits(np.float32(norm), e.norms[i], what, how, "norm")
        else:
            den.oov(t, got, i, norm, what, how)

    if kind == "none":
        t.raises(KeyError, lambda: emb[w], what, "indexing")
        t.check(emb.embedding(w) is None, what, "embedding() without default")
        dv = gen.matrix(r, 1, d, "normal")[0] if r.p(0.7) else np.full(d, r.choice([0.0, -0.0, 1.0]), np.float32)
        got = emb.embedding(w, default=dv)
        t.bits(np.asarray(got), dv, what, "default")
        dd = r.np.normal(size=r.choice([d, d, d + 1, 1]))
        t.bits(np.asarray(emb.embedding(w, default=dd)), dd, what, "default of another type")
        buf = buffers(r, d)
        keep = buf.copy()
        t.check(emb.embedding(w, out=buf) is None, what, "embedding(out) without default")
        t.bits(buf, keep, what, "buffer touched without a vector")
        got = emb.embedding(w, out=buf, default=dv)
        t.bits(np.asarray(got).astype(np.float32), dv, what, "default with buffer")
        t.bits(buf.astype(np.float32), dv, what, "default not in the buffer")
        t.event("defaults returned")
        if e.norms is not None:
            t.check(emb.embedding_with_norm(w) is None, what, "embedding_with_norm() without default")
            got = emb.embedding_with_norm(w, default=(dv, 1.5))
            t.bits(np.asarray(got[0]), dv, what, "default with norm")
            t.eq(got[1], 1.5, what, "default norm")
            got = emb.embedding_with_norm(w, default=(dd, 0.1))
            t.bits(np.asarray(got[0]), dd, what, "default of another type with norm")
            t.eq(got[1], 0.1, what, "default norm of another type")
            buf = buffers(r, d)
            keep = buf.copy()
            t.check(emb.embedding_with_norm(w, out=buf) is None, what, "embedding_with_norm(out) without default")
            t.bits(buf, keep, what, "buffer touched without a vector")
            got = emb.embedding_with_norm(w, out=buf, default=(dv, 2.5))
            t.bits(np.asarray(got[0]).astype(np.float32), dv, what, "default with norm and buffer")
            t.bits(buf.astype(np.float32), dv, what, "default not in the buffer")
            t.eq(got[1], 2.5, what, "default norm with buffer")
    else:
        right(emb[w], None, "indexing")
        dv = gen.matrix(r, 1, d, "normal")[0] if r.p(0.5) else None
        right(emb.embedding(w, default=dv), None, "embedding()")
        buf = buffers(r, d)
        got = emb.embedding(w, out=buf, default=dv)
        t.check(np.array_equal(np.asarray(got), buf), what, "buffer does not hold the returned vector")
        right(buf if buf.dtype == np.float32 else buf.astype(np.float32), None, "embedding(out)")
        t.event("buffers filled")
        if e.norms is not None:
            a, n = emb.embedding_with_norm(w)
            t.check(is_number(n), what, "embedding_with_norm() gives the norm", n)
            right(a, n, "embedding_with_norm()")
            buf = buffers(r, d)
            a, n = emb.embedding_with_norm(w, out=buf, default=None if dv is None else (dv, 0.5))
            t.check(np.array_equal(np.asarray(a), buf), what, "buffer does not hold the returned vector")
            t.check(is_number(n), what, "embedding_with_norm(out) gives the norm", n)
            right(buf if buf.dtype == np.float32 else buf.astype(np.float32), n, "embedding_with_norm(out)")
    if d > 1 and r.p(0.3):
        # a buffer of another size cannot hold the vector
        buf = np.full(r.choice([d - 1, d + 1, 2 * d, d + 7]) if d > 2 else d + 1, SENT)
        t.raises(Exception, lambda: emb.embedding(w, out=buf, default=np.zeros(d, np.float32)), what, f"buffer of {len(buf)} for {d} components")
        if e.norms is not None:
            t.raises(Exception, lambda: emb.embedding_with_norm(w, out=buf, default=(np.zeros(d, np.float32), 0.5)), what,
                     f"buffer of {len(buf)} for {d} components with norm")
        t.event("buffers of the wrong size")
    if e.norms is None:
        t.raises(Exception, lambda: emb.embedding_with_norm(w), what, "norm without norms")
    t.sig(kind, v.kind, e.storage.kind, e.norms is None, w, d)


def queries(t, r):
    e, emb = make(t, r)
    den = Dense(e.storage)
    t.sample(**gen.describe(e))
    qs = [r.choice(e.vocab.words) for _ in range(min(4, len(e.vocab.words)))] + \
        [gen.oov(r, e.vocab) for _ in range(6)] + [r.choice(["", "<", ">", "a", "x" * 40, "aaaaaaaaaaa", "äääääää", "👍👍👍👍👍"])]
    for w in qs:
        lookup(t, r, e, emb, den, w)


def everything(t, r):
    """All known words, iteration, and unusual n-gram sums."""
    mk = r.choice(["zeros", "ints", "dups", "scales", "normal", "tiny", "huge"])
    e, emb = make(t, r, mk=mk)
    den = Dense(e.storage)
    for w in e.vocab.words[:12]:
        lookup(t, r, e, emb, den, w)
    n = 0
    for i, item in enumerate(emb):
        t.check(len(item) == (2 if e.norms is None else 3), "iteration item", item)
        t.eq(item[0], e.vocab.words[i], "iterated word")
        den.known(t, item[1], i, "iterated vector", i)
        if e.norms is not None:
            t.bits(np.float32(item[2]), e.norms[i], "iterated norm", i)
        n += 1
    t.eq(n, len(e.vocab.words), "number of iterated words")
    t.event("iterated words", n)
    for _ in range(4):
        lookup(t, r, e, emb, den, gen.oov(r, e.vocab))


def null(t, r):
    """Sums that are null: null n-gram vectors, cancelling n-gram vectors."""
    kind = r.choice(["ff", "ft", "explicit"])
    v = gen.vocab(r, kind, max_sub=16, hi=8)
    rows = v.upper()
    d = r.choice([1, 2, 3, 8])
    m = gen.matrix(r, rows, d, "normal")
    mode = r.choice(["null", "cancel", "mixed"])
    nw = len(v.words)
    if mode == "null":
        m[nw:] = r.choice([0.0, -0.0])
    elif mode == "mixed":
        m[nw:][r.np.random(rows - nw) < 0.7] = 0
    else:
        m[nw:] = r.np.integers(-1, 2, (rows - nw, d))
    e = gen.E(v, gen.S("nd", m), gen.norms(r, nw) if r.p(0.6) else None)
    emb = lib.embeddings(e, r)
    t.note(mode, gen.describe(e))
    den = Dense(e.storage)
    for _ in range(10):
        w = gen.oov(r, v)
        i = v.idx(w)
        if isinstance(i, list):
            s = m[i].astype(np.float64).sum(0)
            if not np.any(s):
                # exact in float32: small integers
                buf = buffers(r, d)
                for got in (emb[w], emb.embedding(w), emb.embedding(w, out=buf), buf):
                    t.check(not np.any(np.asarray(got)), "null sum is not null for", repr(w), got)
                if e.norms is not None:
                    a, n = emb.embedding_with_norm(w)
                    t.check(not np.any(a) and n == 0, "null sum is not null for", repr(w), a, n)
                t.event("exactly null sums")
                continue
        lookup(t, r, e, emb, den, w)


def many(t, r):
    """More words than small integer types can count."""
    ws = gen.cheap_words(r, r.choice([300, 70000]))
    e, emb = make(t, r, ws=ws, cols=r.choice([1, 2, 4]), vkind=r.choice(["simple", "ff", "ft"]), skind="nd")
    den = Dense(e.storage)
    for w in r.sample(ws, 10) + [ws[-1], ws[0], ws[min(len(ws) - 1, 65536)]] + [gen.oov(r, e.vocab) for _ in range(4)]:
        lookup(t, r, e, emb, den, w)
    n = 0
    for i, item in enumerate(emb):
        if item[0] != ws[i] or not np.array_equal(item[1], den.exact[i]):
            t.check(False, "iterated item", i, item, "want", ws[i], den.exact[i])
        n += 1
    t.eq(n, len(ws), "number of iterated words")
    t.event("large vocabularies")


def long_words(t, r):
    """Unknown words with thousands of n-grams."""
    e, emb = make(t, r, vkind=r.choice(["ff", "ft", "explicit"]))
    den = Dense(e.storage)
    for n in (60, 300, 1500, 9000):
        w = gen.long_word(r, n)
        if w not in e.vocab.index:
            lookup(t, r, e, emb, den, w)
            t.event("long unknown words")


def wide(t, r):
    """Vectors of thousands of components."""
    d = r.choice([300, 1025, 2049, 4097, 9000, 70000])
    e, emb = make(t, r, cols=d, vkind=["ff", "ft", "explicit", "simple"][t.idx % 4], skind="nd", hi=6, max_sub=12)
    den = Dense(e.storage)
    for w in e.vocab.words[:2] + [gen.oov(r, e.vocab) for _ in range(4)]:
        lookup(t, r, e, emb, den, w)
    t.event("wide vectors")


WORKLOADS = dict(wide=(wide, 40, 800), queries=(queries, 4000, 150000), everything=(everything, 1500, 50000), null=(null, 1500, 40000),
                 long_words=(long_words, 60, 2000), many=(many, 16, 200))
