"""C19: no side effects, no interference."""
import os
import sys
import threading

import finalfusion
import numpy as np

from finalfusion.compat import write_fasttext, write_text, write_text_dims, write_word2vec
from ffmon import gen, lib
from ffmon.core import Violation
from ffmon.props.c07 import make
from ffmon.sched import Sched, lines, points, preempt

SRC = os.path.dirname(os.path.realpath(finalfusion.__file__)) + os.sep

KW = dict(ascii_ws=False, empty=False, nul=False)


def freeze(x):
    """A comparable, independent copy of a result."""
    if isinstance(x, np.ndarray):
        return ("a", x.shape, str(x.dtype), np.asarray(x).tobytes())
    if isinstance(x, (np.floating, float)):
        return ("f", np.float64(x).tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    if hasattr(x, "similarity"):
        return (x.word, np.float64(x.similarity).tobytes())
    if isinstance(x, lib.Embeddings):
        return ("e", repr(lib.snapshot(x)))
    if isinstance(x, dict):
        return tuple((k, freeze(v)) for k, v in x.items())
    if hasattr(x, "words") and hasattr(x, "word_index"):
        return (type(x).__name__, tuple(x.words), x.upper_bound)
    if hasattr(x, "quantizer"):
        return ("q", np.asarray(x).tobytes())
    return repr(x)


def argument(r, d):
    """A vector a caller may pass: any values, dtype, layout; possibly read-only."""
    v = gen.matrix(r, 1, d, "normal")[0]
    kind = r.choice(["plain", "plain", "special", "double", "readonly", "strided", "zero", "large", "unit", "whole"])
    if kind == "special":
        for _ in range(r.randint(1, 3)):
            v[r.randrange(d)] = r.choice([np.nan, np.inf, -np.inf, -0.0, np.finfo(np.float32).tiny])
    elif kind == "double":
        v = v.astype(np.float64) * (1 + 1e-12)
    elif kind == "readonly":
        v.setflags(write=False)
    elif kind == "strided":
        v = np.repeat(v, 2)[::2] if r.p(0.5) else v[::-1]
    elif kind == "zero":
        v[:] = 0
    elif kind == "large":
        v *= np.float32(1e6)
    elif kind == "unit":
        v /= np.linalg.norm(v)
    elif kind == "whole":
        v = np.rint(v * 3).astype(np.int32)
    return v


def kept(storage):
    """All rows as they were when iteration gave them; a row handed out does not change when the next one is fetched."""
    rows, copies = [], []
    for x in storage:
        rows.append(x)
        copies.append(np.array(x))
    for i, (x, c) in enumerate(zip(rows, copies)):
        if np.asarray(x).tobytes() != c.tobytes():
            raise Violation(f"row {i} changed while the iteration over the storage went on")
    return rows


def operations(r, e):
    """A random operation: (name, function of embeddings and a scratch path)."""
    ws = e.vocab.words
    w = r.choice(ws) if ws and r.p(0.5) else gen.oov(r, e.vocab)
    w2 = r.choice(ws) if ws and r.p(0.6) else gen.oov(r, e.vocab)
    w3 = r.choice(ws) if ws and r.p(0.6) else gen.oov(r, e.vocab)
    d = e.storage.shape[1]
    n = e.storage.shape[0]
    vec = argument(r, d)
    k = r.randint(0, 12)
    skip = set(r.sample(ws, min(2, len(ws)))) | {w2}
    key = [r.randrange(n) for _ in range(3)] if n else []
    sl = slice(r.randrange(-3, 4), None, r.choice([1, 2, -1]))

    def with_norm(x, **kw):
        return x.embedding_with_norm(w, **kw) if x.norms is not None else None

    def out(x):
        buf = np.full(d, 3.25, np.float32)
        res = x.embedding(w, out=buf, default=vec)
        return (res, buf)

    def norm_out(x):
        buf = np.full(d, 3.25, np.float32)
        return (with_norm(x, out=buf, default=(vec, 2.0)), buf)

    def write(f):
        def g(x, p):
            f(p, x)
            with open(p, "rb") as fh:
                b = fh.read()
            os.unlink(p)
            return [b]
        return g

    def part(sel):
        def g(x, p):
            y = sel(x)
            if y is None:
                return None
            y.write(p)
            with open(p, "rb") as fh:
                b = fh.read()
            os.unlink(p)
            return [b]
        return g
    plain = {
        "indexing": lambda x: x[w] if e.vocab.idx(w) is not None else None,
        "embedding": lambda x: x.embedding(w), "embedding default": lambda x: x.embedding(w, default=vec),
        "embedding out": out, "embedding_with_norm": with_norm, "embedding_with_norm out": norm_out,
        "word_similarity": lambda x: x.word_similarity(w, k),
        "embedding_similarity": lambda x: x.embedding_similarity(vec, k, skip),
        "analogy": lambda x: x.analogy(w, w2, w3, k=k), "analogy skip": lambda x: x.analogy(w, w2, w3, k=k, skip=skip),
        "iteration": lambda x: [list(i) for i in x], "membership": lambda x: (w in x, w2 in x),
        "vocab": lambda x: [x.vocab.idx(w), len(x.vocab), list(x.vocab)],
        "storage index": lambda x: x.storage[key] if n else None, "storage slice": lambda x: np.asarray(x.storage[sl]),
        "storage iteration": lambda x: kept(x.storage), "asarray": lambda x: np.asarray(x.storage), "repr": repr,
        "array arithmetic": lambda x: np.asarray(x.storage * 2 if e.storage.kind == "nd" else np.asarray(x.storage) * 2),
        "norms": lambda x: None if x.norms is None else np.asarray(x.norms[::-1]), "metadata": lambda x: x.metadata,
    }
    files = {
        "write": write(lambda p, x: x.write(p)), "write vocab": part(lambda x: x.vocab), "write storage": part(lambda x: x.storage),
        "write norms": part(lambda x: x.norms), "write metadata": part(lambda x: x.metadata),
        "write_word2vec": write(write_word2vec), "write_text": write(write_text), "write_text_dims": write(write_text_dims),
    }
    if e.storage.kind == "pq" and n:
        i = r.randrange(n)
        lo = r.randrange(n)
        plain["storage embedding"] = lambda x: x.storage.embedding(i)
        plain["storage embedding list"] = lambda x: x.storage.embedding(key)
        plain["storage embedding slice"] = lambda x: x.storage.embedding(slice(lo, lo + 2))
        plain["reconstruct"] = lambda x: x.storage.quantizer.reconstruct(e.storage.codes[key])
        plain["reconstruct one"] = lambda x: x.storage.quantizer.reconstruct(e.storage.codes[i])
    if e.vocab.kind == "ft":
        files["write_fasttext"] = write(write_fasttext)
    if e.vocab.kind in ("ff", "ft"):
        plain["bucket_to_explicit"] = lambda x: x.bucket_to_explicit()
        plain["to_explicit"] = lambda x: x.vocab.to_explicit()
    name = r.choice(list(plain) + list(files))
    args = (vec, skip)
    if name in plain:
        f = plain[name]
        return name, (lambda x, p: f(x)), args
    return name, files[name], args


def sequence(t, r):
    """A history of operations on one object."""
    e, emb = make(t, r, hi=12, max_sub=60, **KW)
    t.sample(**gen.describe(e))
    before = lib.snapshot(emb)
    results = []
    memo = {}
    # sequences run twice in different order must agree as well
    ops = [operations(r, e) for _ in range(14)]
    p = t.path()
    order = list(range(len(ops))) * 2
    r.shuffle(order)
    for i in order:
        name, f, args = ops[i]
        t.note("operation", name)
        keep = freeze(args[0]), set(args[1])
        res = f(emb, p)
        t.check((freeze(args[0]), args[1]) == keep, name, "changed its arguments")
        fr = freeze(res)
        if i in memo:
            t.check(memo[i] == fr, name, "repeated call gives another answer")
            t.event("repeated calls")
        memo[i] = fr
        results.append((name, res, fr))
        t.check(lib.snapshot(emb) == before, name, "changed the embeddings")
        t.event("operations without effect")
        t.event(f"op {name}")
    for name, res, fr in results:
        t.check(freeze(res) == fr, name, "result was altered by later calls")
    t.event("results kept", len(results))
    t.sig([ops[i][0] for i in order], e.vocab.kind, e.storage.kind)


def owned(t, r):
    """Arrays handed out by computations belong to the caller: changing them changes nothing else."""
    e, emb = make(t, r, hi=12, max_sub=60, **KW)
    before = lib.snapshot(emb)
    for _ in range(10):
        w = gen.oov(r, e.vocab)
        if e.vocab.idx(w) is not None:
            a = emb.embedding(w)
            want = freeze(a)
            a *= 0
            a += 17
            t.check(lib.snapshot(emb) == before, "changing the vector of an unknown word changed the embeddings")
            t.check(freeze(emb.embedding(w)) == want, "changing a returned vector changes later answers")
            t.event("vectors of unknown words owned by the caller")
        buf = np.full(e.storage.shape[1], 1, np.float32)
        w = r.choice(e.vocab.words) if e.vocab.words else w
        if emb.embedding(w, out=buf) is not None:
            buf *= 0
            t.check(lib.snapshot(emb) == before, "changing an output buffer changed the embeddings")
            t.event("buffers owned by the caller")
        res = emb.word_similarity(w, 3)
        if res:
            res.clear()
            t.check(lib.snapshot(emb) == before, "changing a result list changed the embeddings")
        if e.vocab.kind != "simple":
            i = emb.vocab.idx(gen.oov(r, e.vocab))
            if isinstance(i, list):
                i.clear()
                t.check(lib.snapshot(emb) == before, "changing an index list changed the embeddings")
    n = e.storage.shape[0]
    if n:
        s = emb.storage
        key = [r.randrange(n) for _ in range(r.choice([1, 2, 3]))]
        gets = {"storage[list]": lambda: s[key], "storage[array]": lambda: s[np.array(key)]}
        if e.storage.kind == "pq":
            c = e.storage.codes[key]
            gets.update({
                "asarray": lambda: np.asarray(s), "asarray float64": lambda: np.asarray(s, np.float64), "storage[i]": lambda: s[key[0]],
                "embedding(i)": lambda: s.embedding(key[0]), "embedding(list)": lambda: s.embedding(key),
                "embedding(slice)": lambda: s.embedding(slice(key[0], None)), "embedding(array)": lambda: s.embedding(np.array([key])),
                "first row": lambda: next(iter(s)), "reconstruct": lambda: s.quantizer.reconstruct(c),
                "reconstruct one": lambda: s.quantizer.reconstruct(c[0]), "slice": lambda: np.asarray(s[key[0]:]),
            })
            if e.vocab.words:
                w = r.choice(e.vocab.words)
                gets["embedding(known word)"] = lambda: emb.embedding(w)
        for name, g in gets.items():
            a = g()
            want = freeze(a)
            a = np.asarray(a)
            if not a.flags.writeable:
                continue
            a *= 0
            a -= 3
            changed = freeze(a)
            b = g()
            t.check(freeze(b) == want, name, "changing a returned array changes later answers")
            t.check(freeze(a) == changed, name, "a later call changed an array returned before")
            t.check(lib.snapshot(emb) == before, name, "changing a returned array changed the embeddings")
            t.event("arrays of storages owned by the caller")
    if e.vocab.kind in ("ff", "ft"):
        x = emb.bucket_to_explicit()
        if x.storage.shape[0]:
            x.storage[:] *= 0
            t.check(lib.snapshot(emb) == before, "changing converted embeddings changed the source")
            t.event("conversions owned by the caller")
    t.sig("owned", e.vocab.words, e.storage.kind)


def concurrent(t, r):
    """The same calls, one after another and from several threads."""
    e, emb = make(t, r, hi=12, max_sub=40, **KW)
    ops = [operations(r, e) for _ in range(18)]
    n_threads = r.choice([2, 3, 4, 6])
    want = [freeze(f(emb, t.path())) for _, f, _ in ops]
    before = lib.snapshot(emb)
    bad, errors = [], []
    traces = [[] for _ in range(n_threads)]
    paths = [t.path() for _ in range(n_threads)]
    seeds = [r.random() for _ in range(n_threads)]
    stamp = [0]
    gate = threading.Barrier(n_threads)

    def run(k):
        import random
        rr = random.Random(seeds[k])
        order = list(range(len(ops))) * 2
        rr.shuffle(order)
        gate.wait()
        for i in order:
            try:
                traces[k].append((stamp[0], i))
                stamp[0] += 1
                got = freeze(ops[i][1](emb, paths[k]))
                stamp[0] += 1
            except Exception as x:
                errors.append((ops[i][0], repr(x)))
                return
            if got != want[i]:
                bad.append(ops[i][0])
    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice([1e-6, 1e-6, 1e-5, 1e-4]))
    try:
        th = [threading.Thread(target=run, args=(k,)) for k in range(n_threads)]
        [x.start() for x in th]
        [x.join() for x in th]
    finally:
        sys.setswitchinterval(old)
    t.note("threads", n_threads, [o[0] for o in ops], gen.describe(e))
    t.check(not errors, "concurrent call failed:", errors[:3])
    t.check(not bad, "concurrent calls give other results than sequential ones:", bad[:5])
    t.check(lib.snapshot(emb) == before, "concurrent calls changed the embeddings")
    merged = sorted((s, k, i) for k, tr in enumerate(traces) for s, i in tr)
    switches = sum(1 for a, b in zip(merged, merged[1:]) if a[1] != b[1])
    t.event("concurrent calls", sum(map(len, traces)))
    t.event("observed thread switches between calls", switches)
    t.sig("interleaving", [(k, i) for _, k, i in merged])


def interleaved(t, r):
    """The same with the threads switched at chosen source lines of the library."""
    e, emb = make(t, r, hi=12, max_sub=40, **KW)
    n = r.choice([2, 2, 3])
    ops = [operations(r, e) for _ in range(r.randint(n, 3 * n))]
    want = [freeze(f(emb, t.path())) for _, f, _ in ops]
    before = lib.snapshot(emb)
    # a call meets itself as well
    todo = [[r.randrange(len(ops)) for _ in range(r.randint(1, 3))] for _ in range(n)]
    paths = [t.path() for _ in range(n)]
    t.note("threads", [[ops[i][0] for i in g] for g in todo], gen.describe(e))
    s = Sched(r, SRC, r.choice([0.02, 0.1, 0.3, 0.7]))
    res = s.run([lambda g=g, p=p: [ops[i][1](emb, p) for i in g] for g, p in zip(todo, paths)])
    for g, (vals, err) in zip(todo, res):
        t.check(err is None, "interleaved calls failed:", [ops[i][0] for i in g], repr(err))
        for i, v in zip(g, vals):
            t.check(freeze(v) == want[i], "interleaved call gives another result than alone:", ops[i][0])
            t.event("interleaved calls")
    t.check(lib.snapshot(emb) == before, "interleaved calls changed the embeddings")
    t.event("switches at chosen lines", s.switches)
    t.sig("schedule", s.log)


def inside(t, r):
    """One call runs to its end, in another thread, at every point of another."""
    e, emb = make(t, r, hi=12, max_sub=40, **KW)
    before = lib.snapshot(emb)
    for _ in range(2):
        a, b = operations(r, e), operations(r, e)
        if r.p(0.3):
            # the same call with other arguments is the most likely one to interfere
            for _ in range(200):
                b = operations(r, e)
                if b[0] == a[0]:
                    break
        p, q = t.path(), t.path()
        want = freeze(a[1](emb, p)), freeze(b[1](emb, q))
        where = lines(SRC, lambda: a[1](emb, p))
        for n in points(r, where, 25 if t.quick else 100):
            at = f"{b[0]} at {where[n][0]}:{where[n][1]} (line event {n}) of {a[0]}:"
            ra, rb, within = preempt(SRC, n, lambda: a[1](emb, p), lambda: b[1](emb, q))
            for x, w, (v, err) in ((a, want[0], ra), (b, want[1], rb)):
                t.check(err is None, at, x[0], "failed:", repr(err))
                t.check(freeze(v) == w, at, x[0], "gives another result than alone")
            t.event("calls inside of a call", int(within))
            t.sig("inside", a[0], b[0], where[n])
    t.check(lib.snapshot(emb) == before, "calls inside of another changed the embeddings")


def loads(t, r):
    """Loading does not change the file; several loads of one file do not interfere."""
    e = gen.embeddings(r, hi=12, max_sub=40, **KW)
    p = t.path()
    lib.embeddings(e, r).write(p)
    data = open(p, "rb").read()
    a, b, c = lib.load_finalfusion(p), lib.load_finalfusion(p, mmap=True), lib.load_finalfusion(p)
    sa, sb = lib.snapshot(a), lib.snapshot(b)
    if c.storage.shape[0] and e.storage.kind == "nd":
        np.asarray(c.storage)[...] = 7
    if c.norms is not None:
        np.asarray(c.norms)[...] = 7
    if c.metadata is not None:
        c.metadata["changed"] = "yes"
    c.norms = None
    t.check(lib.snapshot(a) == sa and lib.snapshot(b) == sb, "changing one loaded object changed another")
    t.check(open(p, "rb").read() == data, "changing a loaded object changed the file")
    for x in (a, b):
        q = t.path()
        x.write(q)
        t.check(open(q, "rb").read() == data, "loaded objects differ")
    t.event("independent loads")


WORKLOADS = dict(sequence=(sequence, 1200, 40000), owned=(owned, 500, 12000), concurrent=(concurrent, 240, 8000), interleaved=(interleaved, 800, 25000), inside=(inside, 400, 10000), loads=(loads, 400, 8000))
