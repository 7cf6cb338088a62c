"""C11: quantized storage denotes one matrix."""
import numpy as np

from ffmon import gen, lib
from ffmon.lib import PQ, QuantizedArray
from ffmon.props import c03


def int_key(r, n):
    """A key with the shape of the expected leading dimensions."""
    k = r.choice(["int", "int", "npint", "list", "list", "arr", "arr2", "arr3", "empty", "range", "dup", "a0"])
    one = lambda: r.choice([0, n - 1, -1, -n, r.randrange(-n, n)])  # noqa: E731
    if k == "int":
        return one()
    if k == "npint":
        return r.choice([np.int64, np.int32, np.intp])(one())
    if k == "a0":
        return np.array(one())
    if k == "list":
        return [one() for _ in range(r.randint(1, 6))]
    if k == "dup":
        return [one()] * r.randint(1, 4)
    if k == "arr":
        return np.array([one() for _ in range(r.randint(1, 6))], dtype=r.choice([np.int64, np.int32, np.intp]))
    if k == "arr2":
        return np.array([one() for _ in range(6)]).reshape(r.choice([(2, 3), (3, 2), (1, 6), (6, 1)]))
    if k == "arr3":
        return np.array([one() for _ in range(8)]).reshape(2, 2, 2)
    if k == "empty":
        return np.array([], dtype=np.int64).reshape(r.choice([(0,), (0, 2), (2, 0)]))
    return np.arange(n)


def a_slice(r, n):
    def b():
        return r.choice([None, None, 0, 1, -1, n, n - 1, -n, n + 3, -n - 2, r.randint(-n - 1, n + 1)])
    return slice(b(), b(), r.choice([None, 1, 1, 2, 3, -1, -2, n + 1, -n - 1]))


class View:
    """The reference matrix restricted to a list of rows."""
    def __init__(self, s):
        self.full = s.dense().astype(np.float64)
        self.tol = np.broadcast_to(lib.pq_tol(s), self.full.shape)
        self.exact = lib.exact_pq(s) if s.projection is None else None

    def __call__(self, t, got, rows, *msg):
        """rows: array of row numbers with the leading dimensions of got."""
        g = np.asarray(got)
        t.eq(g.shape, tuple(rows.shape) + (self.full.shape[1],), *msg, "shape")
        t.check(g.dtype.kind == "f", *msg, "dtype", str(g.dtype))
        if self.exact is not None:
            lib.same_values(t, g.astype(np.float32), self.exact[rows], *msg)
        else:
            t.close(g, self.full[rows], self.tol[rows], *msg)


def buffer(r, shape):
    k = r.choice(["c", "c", "f", "stride", "neg"])
    if k == "f":
        return np.full(shape, -7.5, np.float32, order="F")
    if k == "stride":
        b = np.full(tuple(2 * x + 1 for x in shape), -7.5, np.float32)
        return b[tuple(slice(1, 1 + 2 * x, 2) for x in shape)]
    if k == "neg":
        return np.full(shape, -7.5, np.float32)[..., ::-1]
    return np.full(shape, -7.5, np.float32)


def use(t, r, q, rows, view, what, depth):
    """All operations on one (sliced) storage whose rows are `rows` of the matrix."""
    n, d = len(rows), view.full.shape[1]
    t.check(type(q) is QuantizedArray, what, "type", type(q).__name__)
    t.eq(tuple(q.shape), (n, d), what, "shape")
    t.eq(len(q), n, what, "length")
    for _ in range(3):
        if n == 0:
            break
        k = int_key(r, n)
        want = rows[k] if not isinstance(k, (int, np.integer)) else np.array(rows[k])
        want = np.asarray(want)
        t.note(what, "key", k)
        view(t, q[k], want, what, "index", k)
        view(t, q.embedding(k), want, what, "embedding", k)
        buf = buffer(r, want.shape + (d,))
        got = q.embedding(k, out=buf)
        view(t, buf, want, what, "buffer", k)
        t.check(np.array_equal(np.asarray(got), buf, equal_nan=True), what, "returned vector differs from the buffer", k)
        t.event("indices " + type(k).__name__)
        t.sig(what, depth, repr(k)[:60], view.full.shape, n)
    for bad in (n, -n - 1, [0, n]):
        t.raises(Exception, lambda: q[bad], what, "index out of range", bad)
    t.raises(Exception, lambda: q[None], what, "None as an index")
    s = a_slice(r, n)
    t.note(what, "slice", s)
    view(t, q.embedding(s), rows[s], what, "embedding", s)
    buf = buffer(r, rows[s].shape + (d,))
    q.embedding(s, out=buf)
    view(t, buf, rows[s], what, "buffer", s)
    view(t, np.asarray(q), rows, what, "asarray")
    if r.p(0.4):
        view(t, np.array(q), rows, what, "array")
        a = np.asarray(q, dtype=np.float64)
        t.eq(a.dtype, np.dtype(np.float64), what, "dtype of conversion")
        view(t, a, rows, what, "asarray float64")
        b = q.__array__(np.dtype(np.float64))
        t.eq(b.dtype, np.dtype(np.float64), what, "dtype of __array__")
        t.event("conversions")
        if n:
            b = np.asarray(q)
            c = np.asarray(q)
            t.check(not np.shares_memory(b, c), what, "two conversions share memory")
            x, y = q[0], q[n - 1]
            t.check(not np.shares_memory(x, y), what, "two rows share memory")
            view(t, x, np.array(rows[0]), what, "row after another was read")
    it = list(q)
    t.eq(len(it), n, what, "number of iterated rows")
    for i, row in enumerate(it):
        view(t, row, np.array(rows[i]), what, "iterated row", i)
    t.event("iterated rows", n)
    if depth < 3:
        t.event("slices")
        use(t, r, q[s], rows[s], view, f"{what}[{s.start}:{s.stop}:{s.step}]", depth + 1)


def make(t, r):
    n = r.choice([0, 1, 2, 3, 5, 10, 20])
    s = gen.pq(r, n)
    t.note("pq", s.quantizers.shape, s.projection is not None, s.norms is not None, n)
    t.event(f"projection={s.projection is not None} norms={s.norms is not None}")
    t.sample(rows=n, quantizers=list(s.quantizers.shape), projection=s.projection is not None, norms=s.norms is not None)
    return s, lib.storage(s, r)


def memory(t, r):
    s, q = make(t, r)
    use(t, r, q, np.arange(s.shape[0]), View(s), "in memory", 0)


def loaded(t, r):
    s, q = make(t, r)
    p = t.path()
    pre = r.p(0.5)
    if pre:
        v = gen.V("simple", gen.cheap_words(r, s.shape[0]))
        lib.embeddings(gen.E(v, s, gen.norms(r, s.shape[0]) if r.p(0.5) else None)).write(p)
    else:
        q.write(p)
    for mmap in (False, True):
        got = lib.load_finalfusion(p, mmap=mmap).storage if pre and r.p(0.5) else \
            r.choice([lib.load_storage, lib.load_quantized_array])(p, mmap=mmap)
        use(t, r, got, np.arange(s.shape[0]), View(s), f"loaded mmap={mmap}", 0)
        t.event(f"loaded mmap={mmap}")


def written(t, r):
    """A slice written and loaded again."""
    s, q = make(t, r)
    rows = np.arange(s.shape[0])
    if r.p(0.5):
        p = t.path()
        q.write(p)
        q = lib.load_storage(p, mmap=r.p(0.5))
    for _ in range(r.randint(1, 2)):
        sl = a_slice(r, len(rows))
        q, rows = q[sl], rows[sl]
        t.note("slice", sl)
    p = t.path()
    q.write(p)
    for mmap in (False, True):
        use(t, r, lib.load_storage(p, mmap=mmap), rows, View(s), f"written slice mmap={mmap}", 2)
    t.event("slices written")


def quantizer(t, r):
    """The product quantizer on its own."""
    s, q = make(t, r)
    n, d = s.shape
    pq = q.quantizer
    plain = gen.S("pq", None, s.quantizers, s.projection, None, s.codes)
    view = View(plain)
    rows = np.arange(n)
    t.eq((pq.reconstructed_len, pq.n_centroids), (d, s.quantizers.shape[1]), "quantizer sizes")
    codes = s.codes
    view(t, pq.reconstruct(codes), rows, "reconstruct")
    buf = buffer(r, (n, d))
    pq.reconstruct(codes, out=buf)
    view(t, buf, rows, "reconstruct into a buffer")
    if n:
        i = r.randrange(n)
        view(t, pq.reconstruct(codes[i]), np.array(i), "reconstruct one")
        k = np.array([[i, 0], [n - 1, i]])
        view(t, pq.reconstruct(codes[k]), k, "reconstruct a tensor")
        wrong = {(n + 1, d), (n, d + 1), (d, n), (n * d,), (1, n, d), (n, 1, d), (n, d, 1)}
        if d % 2 == 0:
            wrong.add((2 * n, d // 2))
        for bad in sorted(wrong - {(n, d)}):
            t.raises(Exception, lambda: pq.reconstruct(codes, out=np.zeros(bad, np.float32)), "buffer of wrong shape", bad)
    t.event("quantizers")
    t.sig("pq", s.quantizers.shape, n, s.projection is None)


def aliases(t, r):
    """Slices copy no buffers: they follow a change of the arrays the storage was made of exactly if the storage does."""
    n = r.randint(2, 12)
    s = gen.pq(r, n)
    codes, norms, quant = s.codes.copy(), None if s.norms is None else s.norms.copy(), s.quantizers.copy()
    q = QuantizedArray(PQ(quant, s.projection), codes, norms)
    sl = a_slice(r, n)
    part, again = q[sl], q[sl][::-1]
    rows = np.arange(n)[sl]
    codes[:] = codes[::-1].copy()
    quant *= 2
    if norms is not None:
        norms += 1
    t.note("alias", sl, s.shape)
    for x, k in ((part, rows), (again, rows[::-1])):
        t.eq(len(x), len(k), "length of a slice")
        for i, j in enumerate(k):
            t.bits(np.asarray(x[i]), np.asarray(q[int(j)]), "row", i, "of a slice after the arrays changed")
    t.event("slices of changed storages", len(rows))
    t.sig("alias", sl, s.shape, n)


def big(t, r):
    n = r.choice([1000, 5000, 5000, 70000])
    s = gen.pq(r, n)
    q = lib.storage(s)
    if r.p(0.5):
        p = t.path()
        q.write(p)
        q = lib.load_storage(p, mmap=r.p(0.7))
    view = View(s)
    rows = np.arange(n)
    view(t, np.asarray(q), rows, "big")
    sl = a_slice(r, n)
    view(t, np.asarray(q[sl]), rows[sl], "big slice")
    k = r.np.integers(0, n, (50, 4))
    view(t, q[k], k, "big index")
    k = r.np.integers(-n, n, r.choice([3000, 30000]))
    view(t, q[k.tolist()], k, "big list index")
    it = list(q)
    t.eq(len(it), n, "rows in iteration")
    view(t, np.stack(it), rows, "big iteration")
    t.event("big storages")


def far(t, r):
    """Storages that start more than 2 GiB into a file."""
    c03.far(t, r, "pq", lib.load_quantized_array if r.p(0.5) else lib.load_storage)


WORKLOADS = dict(far=(far, 8, 100), memory=(memory, 1500, 60000), loaded=(loaded, 700, 25000), written=(written, 700, 25000),
                 quantizer=(quantizer, 800, 20000), big=(big, 24, 500), aliases=(aliases, 300, 5000))
