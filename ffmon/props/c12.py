"""C12: array storage and norms behave like the arrays they wrap."""
import os

import numpy as np

from ffmon import gen, lib
from ffmon.lib import NdArray, Norms
from ffmon.props import c03
from ffmon.props.c11 import a_slice, int_key


def other_key(r, n, d):
    """Further numpy index expressions."""
    k = r.choice(["mask", "tuple", "cols", "pair", "ellipsis", "newaxis", "element", "two lists", "mask2"])
    if k == "mask":
        return r.np.random(n) < 0.5
    if k == "mask2":
        return r.np.random((n, d)) < 0.5
    if k == "tuple":
        return (a_slice(r, n), a_slice(r, d))
    if k == "cols":
        return (slice(None), r.randrange(d))
    if k == "pair":
        return ([r.randrange(n) for _ in range(3)], a_slice(r, d))
    if k == "ellipsis":
        return Ellipsis
    if k == "newaxis":
        return None
    if k == "element":
        return (r.randrange(n), r.randrange(d))
    return ([r.randrange(n) for _ in range(3)], [r.randrange(d) for _ in range(3)])


def same(t, got, want, *msg):
    t.bits(np.asarray(got), np.asarray(want), *msg)


def use_storage(t, r, x, a, what, depth=0):
    n, d = a.shape
    t.check(type(x) is NdArray, what, "type", type(x).__name__)
    t.eq(tuple(x.shape), a.shape, what, "shape")
    t.eq(len(x), n, what, "length")
    same(t, x, a, what)
    for _ in range(3):
        if not n:
            break
        k = int_key(r, n)
        t.note(what, "key", k)
        got = x[k]
        same(t, got, a[k], what, "index", k)
        t.check(type(got) is np.ndarray, what, "indexing returns", type(got).__name__)
        t.event("storage indices " + type(k).__name__)
        t.sig(what, depth, repr(k)[:60], a.shape)
    if n and d:
        k = other_key(r, n, d)
        t.note(what, "key", k)
        same(t, x[k], a[k], what, "index", k)
        t.event("other storage indices")
    for bad in (n, -n - 1, [n], (0, d)):
        t.raises(Exception, lambda: x[bad], what, "index out of range", bad)
    rows = list(x)
    t.eq(len(rows), n, what, "number of iterated rows")
    for i, row in enumerate(rows):
        same(t, row, a[i], what, "iterated row", i)
    t.event("iterated rows", n)
    if n and d:
        t.check(all(np.shares_memory(row, x) for row in rows[:3]), what, "iterated rows are copies")
    if depth < 3:
        s = a_slice(r, n)
        t.note(what, "slice", s)
        use_storage(t, r, x[s], a[s], f"{what}[{s.start}:{s.stop}:{s.step}]", depth + 1)
        t.event("storage slices")


def use_norms(t, r, x, a, what, depth=0):
    n = len(a)
    t.check(type(x) is Norms, what, "type", type(x).__name__)
    t.eq(tuple(x.shape), a.shape, what, "shape")
    t.eq(len(x), n, what, "length")
    same(t, x, a, what)
    for _ in range(3):
        if not n:
            break
        k = r.choice([int_key(r, n), r.np.random(n) < 0.5, Ellipsis, int_key(r, n)])
        t.note(what, "key", k)
        same(t, x[k], a[k], what, "index", k)
        t.event("norms indices")
        t.sig(what, "norms", depth, repr(k)[:60], n)
    for bad in (n, -n - 1, [n]):
        t.raises(Exception, lambda: x[bad], what, "index out of range", bad)
    it = list(x)
    t.eq(len(it), n, what, "number of iterated norms")
    same(t, np.array(it, np.float32), a, what, "iterated norms")
    if depth < 3:
        s = a_slice(r, n)
        t.note(what, "slice", s)
        use_norms(t, r, x[s], a[s], f"{what}[{s.start}:{s.stop}:{s.step}]", depth + 1)
        t.event("norms slices")


def array(t, r):
    n, d = r.choice([0, 1, 2, 3, 5, 10, 20]), r.choice([1, 1, 2, 3, 5, 8, 17])
    return gen.bits_matrix(r, (n, d)) if r.p(0.5) else gen.matrix(r, n, d)


def memory(t, r):
    a = array(t, r)
    t.sample(shape=list(a.shape))
    x = NdArray(gen.layout(r, a))
    use_storage(t, r, x, a, "in memory")
    b = a[:, 0].copy() if a.shape[1] else np.zeros(0, np.float32)
    use_norms(t, r, Norms(gen.layout(r, b)), b, "norms in memory")


def loaded(t, r):
    a = array(t, r)
    p = t.path()
    whole = r.p(0.5)
    b = gen.bits_matrix(r, (a.shape[0],))
    if whole:
        v = gen.V("simple", gen.cheap_words(r, a.shape[0]))
        lib.embeddings(gen.E(v, gen.S("nd", a), b, {"x": 1} if r.p(0.5) else None), r).write(p)
    else:
        NdArray(gen.layout(r, a)).write(p)
    before = open(p, "rb").read()
    for mmap in (False, True):
        if whole and r.p(0.5):
            e = lib.load_finalfusion(p, mmap=mmap)
            x = e.storage
            use_norms(t, r, e.norms, b, "loaded norms")
        else:
            x = r.choice([lib.load_storage, lib.load_ndarray])(p, mmap=mmap)
        use_storage(t, r, x, a, f"loaded mmap={mmap}")
        t.event(f"loaded mmap={mmap}")
        if mmap and a.size:
            t.check(not x.flags.writeable, "memory-mapped storage is writable")

            def change(y, k):
                y[k] = 1.0
            for y in (x, x[::-1], x[0:1], np.asarray(x)):
                t.raises(Exception, lambda: change(y, 0), "assignment to a memory-mapped storage")
            t.raises(Exception, lambda: x.__imul__(2), "in-place operation on a memory-mapped storage")
            t.event("memory-mapped storage refuses assignment")
            same(t, x, a, "storage after refused assignment")
    if whole:
        use_norms(t, r, lib.load_norms(p), b, "loaded norms")
    t.check(open(p, "rb").read() == before, "file changed")


def written(t, r):
    """Slices of slices, written and loaded."""
    a = array(t, r)
    x = NdArray(gen.layout(r, a))
    if r.p(0.6):
        p = t.path()
        x.write(p)
        x = lib.load_storage(p, mmap=r.p(0.6))
    m = a
    for _ in range(r.randint(1, 3)):
        s = a_slice(r, len(m))
        x, m = x[s], m[s]
        t.note("slice", s)
    p = t.path()
    x.write(p)
    for mmap in (False, True):
        use_storage(t, r, lib.load_storage(p, mmap=mmap), m, f"written slice mmap={mmap}", 2)
    # as part of embeddings
    p = t.path()
    v = gen.V("simple", gen.cheap_words(r, len(m)))
    lib.Embeddings(x, lib.vocab(v)).write(p)
    e = lib.load_finalfusion(p, mmap=r.p(0.5))
    same(t, e.storage, m, "slice written in embeddings")
    b = gen.bits_matrix(r, (r.choice([0, 1, 5, 30]),))
    y = Norms(gen.layout(r, b))
    for _ in range(r.randint(1, 3)):
        s = a_slice(r, len(b))
        y, b = y[s], b[s]
    p = t.path()
    y.write(p)
    use_norms(t, r, lib.load_norms(p), b, "written norms", 2)
    t.event("slices written")
    t.sig("written", a.shape, m.shape, b.shape)


def big(t, r):
    a = gen.bits_matrix(r, (r.choice([3000, 70000]), r.choice([1, 3, 5])))
    p = t.path()
    NdArray(a).write(p)
    for mmap in (False, True):
        x = lib.load_storage(p, mmap=mmap)
        same(t, x, a, "big")
        s = a_slice(r, len(a))
        same(t, x[s], a[s], "big slice")
        k = r.np.integers(0, len(a), (40, 3))
        same(t, x[k], a[k], "big index")
        k = r.np.integers(-len(a), len(a), r.choice([3000, 30000])).tolist()
        same(t, x[k], a[k], "big list index")
        k = r.np.random(len(a)) < r.choice([0.01, 0.5, 0.99])
        same(t, x[k], a[k], "big mask")
        it = list(x)
        t.eq(len(it), len(a), "rows in iteration")
        same(t, np.stack(it), a, "big iteration")
        q = t.path()
        x[s].write(q)
        same(t, lib.load_storage(q), a[s], "big slice written")
        os.unlink(q)
    t.event("big storages")


def blocks(t, r):
    """Sizes at and beside multiples of block sizes."""
    n = gen.block_count(r)
    p = t.path()
    if t.idx % 3 == 2:
        b = gen.bits_matrix(r, (n,))
        Norms(b).write(p)
        same(t, lib.load_norms(p), b, f"{n} norms written")
    else:
        c = r.choice([1, 1, 2, 3, 7, 64])
        a = gen.bits_matrix(r, r.choice([(n, 1), (1, n), (max(1, n // c), c)]))
        x = NdArray(a)
        if r.p(0.3) and len(a) > 2:
            s = a_slice(r, len(a))
            x, a = x[s], a[s]
        x.write(p)
        for mmap in (False, True):
            same(t, lib.load_storage(p, mmap=mmap), a, f"storage of shape {a.shape} written, mmap={mmap}")
    t.event("sizes beside multiples of block sizes")
    t.sig("blocks", t.idx % 3, n)


def far(t, r):
    """Storages that start more than 2 GiB into a file."""
    c03.far(t, r, "nd", lib.load_ndarray if r.p(0.5) else lib.load_storage)


WORKLOADS = dict(far=(far, 8, 100), memory=(memory, 2000, 70000), loaded=(loaded, 1200, 40000), written=(written, 1200, 40000), big=(big, 24, 400), blocks=(blocks, 200, 4000))
