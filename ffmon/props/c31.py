"""C31: copies and pickles of every object are equal, answer alike, write the same file and are independent."""
import copy
import io
import os
import pickle
import subprocess
import sys

import numpy as np

from finalfusion.compat import (load_fasttext, load_text, load_text_dims, load_word2vec)
from finalfusion.embeddings import SimilarityResult
from ffmon import gen, lib, ref
from ffmon.core import le
from ffmon.props import c20
from ffmon.props.c30 import LOAD

KW = dict(ascii_ws=False, empty=False, nul=False)


def oob(x):
    """Protocol 5 with the buffers sent apart, as multiprocessing tools do."""
    bufs = []
    data = pickle.dumps(x, protocol=5, buffer_callback=bufs.append)
    return pickle.loads(data, buffers=[bytearray(b.raw()) for b in bufs])


def stream(x):
    f = io.BytesIO()
    p = pickle.Pickler(f, protocol=4)
    p.dump([x, 1])
    p.dump(2)
    f.seek(0)
    return pickle.Unpickler(f).load()[0]


def pure(x):
    """The pure Python implementation of pickle."""
    f = io.BytesIO()
    pickle._Pickler(f, protocol=3).dump(x)
    f.seek(0)
    return pickle._Unpickler(f).load()


DEEP = {f"pickle {p}": (lambda x, p=p: pickle.loads(pickle.dumps(x, protocol=p))) for p in range(6)}
DEEP.update({"deepcopy": copy.deepcopy, "pickle out of band": oob, "pickle stream": stream, "pickle in Python": pure,
             "deepcopy in a list": lambda x: copy.deepcopy([x, x])[1], "deepcopy of a copy": lambda x: copy.deepcopy(copy.copy(x)),
             "pickle of a deepcopy": lambda x: pickle.loads(pickle.dumps(copy.deepcopy(x))),
             "pickle twice": lambda x: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x))))})
ALL = dict(DEEP, copy=copy.copy)


def original(t, r):
    """Embeddings, their model (where they are in the finalfusion format) and how they came about."""
    how = r.choice(["memory", "memory", "eager", "mmap", "mmap", "other"])
    if how == "other":
        fmt = r.choice(["fasttext", "word2vec", "text", "textdims"])
        src, _ = c20.source(t, r, fmt)
        return LOAD[fmt](src), None, fmt, src
    m = gen.embeddings(r, hi=12, max_sub=100)
    if how == "memory":
        return lib.embeddings(m, r if r.p(0.6) else None), m, how, None
    p = t.path()
    lib.embeddings(m).write(p)
    return lib.load_finalfusion(p, mmap=how == "mmap"), m, how, p


def observe(x):
    """The state of embeddings up to the rounding of reconstructed rows."""
    s = lib.snapshot(x, le)
    i = next(k for k, v in enumerate(s) if v in ("NdArray", "QuantizedArray"))
    if s[i] == "QuantizedArray" and x.storage.quantizer.projection is not None:
        s = s[:i + 2] + s[i + 3:]
    return s


def answers(e, ws):
    """Vectors and answers to queries."""
    out = []
    for w in ws:
        v = e.embedding(w)
        out.append((w, None if v is None else np.array(v), e.vocab.idx(w)))
    if len(e.vocab) >= 3 and e.storage.shape[1]:
        q = e.vocab.words[0]
        for res in (e.word_similarity(q, k=3), e.analogy(*e.vocab.words[:3], k=2)):
            out.append(None if res is None else [float(x.similarity) for x in res])
    return out


def scale(e):
    with np.errstate(all="ignore"):
        n = np.linalg.norm(np.asarray(e.storage, dtype=np.float64), axis=1)
    return float(n.max()) if len(n) else 0.


def alike(t, got, want, what, size):
    t.eq(len(got), len(want), what, "number of answers")
    for g, w in zip(got, want):
        if isinstance(w, tuple):
            t.eq((g[0], g[2]), (w[0], w[2]), what, "index of", repr(w[0]))
            t.eq(g[1] is None, w[1] is None, what, "vector of", repr(w[0]))
            if w[1] is not None:
                with np.errstate(all="ignore"):
                    tol = 1e-5 * (np.linalg.norm(w[1].astype(np.float64)) + 1e-30)
                lib.close_nonfinite(t, g[1], w[1], tol, what, "vector of", repr(w[0]))
        else:
            t.eq(g is None, w is None, what, "answer to a query")
            if w is not None and np.all(np.isfinite(w)) and np.all(np.isfinite(g)):
                t.close(g, w, 1e-4 * (size + size ** 2 + 1), what, "similarities")


def words_for(r, e):
    ws = list(e.vocab.words)
    some = r.sample(ws, min(len(ws), 5))
    return some + [gen.word(r) for _ in range(3)]


def finite(e):
    with np.errstate(all="ignore"):
        a = np.asarray(e.storage, dtype=np.float64)
    return bool(np.all(np.isfinite(a)) and np.all(np.abs(a) < 1e15) and (np.all(np.abs(a[a != 0]) > 1e-15)))


def file_of(t, e):
    p = t.path()
    e.write(p)
    with open(p, "rb") as f:
        return f.read()


def scribble(r, e):
    """Changes everything in embeddings that can be changed in place."""
    done = []
    if e.norms is not None and len(e.norms) and e.norms.flags.writeable:
        e.norms[r.randrange(len(e.norms))] = 12345.5
        done.append("norms")
    if e.metadata is not None:
        for v in list(e.metadata.values()):
            if isinstance(v, dict):
                v["changed"] = 1
            elif isinstance(v, list):
                v.clear()
        e.metadata["changed \u2192"] = 1
        done.append("metadata")
    s = e.storage
    arrays = [s] if isinstance(s, np.ndarray) else [s.quantizer.subquantizers, s.quantizer.projection]
    for a in arrays:
        if a is not None and a.size and a.flags.writeable:
            np.asarray(a)[...] = 7.25
            done.append("storage")
    v = e.vocab
    if hasattr(v, "subword_indexer") and isinstance(v.subword_indexer, lib.ExplicitIndexer):
        v.subword_indexer.ngram_index["changed \u2192"] = 0
        v.subword_indexer.ngrams.append("changed \u2192")
        done.append("ngrams")
    v.words.append("changed \u2192")
    v.word_index["changed \u2192"] = 0
    return done


def whole(t, r):
    e, m, how, src = original(t, r)
    name = r.choice(list(ALL))
    t.note(name, "of embeddings", how, gen.describe(m) if m is not None else "")
    before = lib.snapshot(e)
    f0 = file_of(t, e) if e.metadata is None or how != "memory" or r.p(0.7) else None
    if r.p(0.3):
        answers(e, words_for(r, e)) if finite(e) else None    # with whatever the object keeps from earlier queries
    try:
        c = ALL[name](e)
    except Exception as x:
        t.check(False, f"{name} of embeddings ({how}) failed with {type(x).__name__}: {x}")
    what = f"{name} of embeddings ({how})"
    t.check(type(c) is type(e), what, "type", type(c).__name__)
    t.check(c is not e, what, "is the object itself")
    t.eq(observe(c), observe(e), what, "state")
    t.check(c.vocab == e.vocab and e.vocab == c.vocab, what, "vocabularies are not equal")
    if m is not None:
        lib.check_embeddings(t, c, m, what, "keep" if how == "memory" else "toml")
    if finite(e):
        ws = words_for(r, e)
        alike(t, answers(c, ws), answers(e, ws), what, scale(e))
        t.event("answers compared")
    if f0 is not None:
        t.check(file_of(t, c) == f0, what, "writes another file")
        t.event("files compared")
    t.eq(lib.snapshot(e), before, what, "changed the original")
    if name == "copy":
        share(t, r, e, c, before)
        return
    if how == "mmap" and r.p(0.5):
        st = observe(c)
        n = os.path.getsize(src)
        with open(src, "r+b") as f:
            f.write(b"\x55" * n)
        t.eq(observe(c), st, what, "depends on the file")
        t.event("copies of mapped embeddings whose file changed")
        return
    a, b = (e, c) if r.p(0.5) else (c, e)
    st, fb = lib.snapshot(b), (file_of(t, b) if f0 is not None else None)
    for d in scribble(r, a):
        t.event(f"changed {d}")
    t.eq(lib.snapshot(b), st, what, "is not independent of the original")
    if fb is not None:
        t.check(file_of(t, b) == fb, what, "is not independent: writes another file")
    t.event(f"{name} of embeddings {how if m is not None else 'other'}")
    t.sig(name, how, f0[:300] if f0 else before[:3])


def share(t, r, e, c, before):
    """Assignments to a shallow copy."""
    k = r.choice(["norms", "metadata"])
    a, b = (e, c) if r.p(0.5) else (c, e)
    st = lib.snapshot(b)
    if k == "metadata":
        a.metadata = r.choice([None, lib.Metadata({"other": 1})])
    elif a.norms is not None:
        a.norms = lib.Norms(np.full(len(a.norms), 3, dtype=np.float32))
    else:
        a.norms = lib.Norms(np.full(len(a.vocab), 3, dtype=np.float32))
    t.eq(lib.snapshot(b), st, f"assigning {k} changed a shallow copy as well")
    t.event("copy of embeddings assigned to")
    t.sig("copy", k, str(before[:3]))


def parts(t, r):
    """Copies of parts on their own."""
    m = gen.embeddings(r, hi=12, max_sub=100, with_norms=True, with_meta=True)
    e = lib.embeddings(m, r)
    if r.p(0.5):
        p = t.path()
        e.write(p)
        e = lib.load_finalfusion(p, mmap=r.p(0.5))
        m.meta = lib.toml_meta(m.meta)
    for _ in range(5):
        name = r.choice(list(ALL))
        f = ALL[name]
        k = r.choice(["vocab", "storage", "norms", "metadata", "indexer", "pq", "slice", "result"])
        t.note(name, "of", k, gen.describe(m))

        def made(x):
            try:
                y = f(x)
            except Exception as ex:
                t.check(False, f"{name} of {k} failed with {type(ex).__name__}: {ex}")
            t.check(type(y) is type(x), f"{name} of {k} is of type", type(y).__name__)
            return y
        what = f"{name} of {k}"
        if k == "vocab":
            c = made(e.vocab)
            lib.check_vocab(t, c, m.vocab, what)
            t.check(c == e.vocab and e.vocab == c and not c != e.vocab, what, "is not equal")
        elif k == "storage":
            lib.check_storage(t, made(e.storage), m.storage, what)
        elif k == "norms":
            lib.check_norms(t, made(e.norms), m.norms, what)
        elif k == "metadata":
            lib.check_meta(t, made(e.metadata), m.meta, what)
        elif k == "indexer":
            if m.vocab.kind == "simple":
                continue
            ix = e.vocab.subword_indexer
            c = made(ix)
            t.check(c == ix and ix == c, what, "is not equal")
            t.eq((c.min_n, c.max_n, c.upper_bound), (ix.min_n, ix.max_n, ix.upper_bound), what)
            for w in m.vocab.words[:4] + [gen.word(r) for _ in range(3)]:
                off = r.choice([0, 1, 1000])
                t.eq([int(i) for i in c.subword_indices(w, off)], [int(i) for i in ix.subword_indices(w, off)], what, "indices of", repr(w))
                for g in m.vocab.subwords(w)[:3]:
                    t.eq(c(g), ix(g), what, "index of", repr(g))
            if m.vocab.kind == "explicit" and name in DEEP:
                n = dict(ix.ngram_index)
                c.ngram_index["changed \u2192"] = 0
                c.ngrams.append("changed \u2192")
                t.eq(dict(ix.ngram_index), n, what, "is not independent")
                t.eq(list(ix.ngrams), list(m.vocab.ngram_list), what, "is not independent")
        elif k == "pq":
            if m.storage.kind != "pq":
                continue
            q = e.storage.quantizer
            c = made(q)
            t.bits(c.subquantizers, q.subquantizers, what, "quantizers")
            t.eq(c.projection is None, q.projection is None, what, "projection")
            if q.projection is not None:
                t.bits(c.projection, q.projection, what, "projection")
            t.eq((c.reconstructed_len, c.n_centroids), (q.reconstructed_len, q.n_centroids), what)
            if q.n_centroids:
                codes = r.np.integers(0, q.n_centroids, (3, q.subquantizers.shape[0])).astype(np.uint8)
                lib.close_nonfinite(t, c.reconstruct(codes), q.reconstruct(codes), 1e-3 * (1 + np.abs(np.nan_to_num(q.reconstruct(codes)))), what, "reconstruction")
        elif k == "slice":
            n = m.storage.shape[0]
            sl = slice(*sorted(r.randint(0, n) for _ in range(2)), r.choice([None, 1, 2]))
            s = e.storage[sl]
            c = made(s)
            t.eq(tuple(c.shape), tuple(s.shape), what, "shape")
            if len(s):
                lib.close_nonfinite(t, np.asarray(c), np.asarray(s), 1e-4 * np.abs(np.nan_to_num(np.asarray(s))) + 1e-30
                                    if m.storage.kind == "nd" or m.storage.projection is None else np.inf, what, "rows")
        else:
            x = SimilarityResult(gen.word(r), r.random())
            c = made(x)
            t.eq((c.word, c.similarity), (x.word, x.similarity), what)
            t.check(c == x, what, "is not equal")
        t.event(f"copies of {k}")
        t.sig(name, k, m.vocab.kind, m.storage.kind, m.vocab.words[:3])


CHILD = """
import pickle, sys
sys.path.insert(0, sys.argv[2])
e, ws = pickle.loads(sys.stdin.buffer.read())
from ffmon.props import c31
e.write(sys.argv[1])
sys.stdout.buffer.write(pickle.dumps((c31.answers(e, ws), [type(e).__name__, e.origin, type(e.vocab).__name__, e.vocab.words], e)))
"""


def process(t, r):
    """Sending embeddings to a newly started process and back."""
    e, m, how, src = original(t, r)
    while not finite(e):
        e, m, how, src = original(t, r)
    ws = words_for(r, e)
    f0 = file_of(t, e)
    out = t.path()
    t.note("process", how)
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable, "-c", CHILD, out, here], input=pickle.dumps((e, ws), protocol=r.randint(0, 5)),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    t.check(p.returncode == 0, "another process could not use unpickled embeddings", p.stderr.decode("utf-8", "replace")[-500:])
    got, st, back = pickle.loads(p.stdout)
    alike(t, got, answers(e, ws), f"embeddings ({how}) in another process", scale(e))
    t.eq(st, [type(e).__name__, e.origin, type(e.vocab).__name__, e.vocab.words], "state in another process")
    with open(out, "rb") as f:
        t.check(f.read() == f0, "another process wrote another file")
    t.eq(observe(back), observe(e), "embeddings that came back from another process")
    t.event("embeddings sent to another process")
    t.sig("process", how, f0[:300])


def forked(t, r):
    """A forked process uses the same objects; neither side sees the other."""
    e, m, how, src = original(t, r)
    if not finite(e):
        return
    ws = words_for(r, e)
    before = lib.snapshot(e)
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(rd)
            data = pickle.dumps((answers(e, ws), lib.snapshot(e)))
            scribble(r, e)
            with open(wr, "wb") as f:
                f.write(data)
            rc = 0
        finally:
            os._exit(rc)
    os.close(wr)
    with open(rd, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    t.check(st == 0 and data, "a forked process could not use the embeddings:", st)
    got, snap = pickle.loads(data)
    alike(t, got, answers(e, ws), f"embeddings ({how}) in a forked process", scale(e))
    t.eq(snap, before, "state in a forked process")
    t.eq(lib.snapshot(e), before, "a forked process changed the embeddings")
    t.event("embeddings used in a forked process")
    t.sig("fork", how, str(before[:3]))


WORKLOADS = dict(whole=(whole, 3000, 30000), parts=(parts, 1500, 15000), process=(process, 40, 300), forked=(forked, 300, 2500))
