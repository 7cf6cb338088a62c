"""C25: files are released after use; memory-mapped data is mapped, not copied."""
import gc
import io
import os
import resource
import struct
import sys

import numpy as np

from finalfusion.compat import (load_fasttext, load_text, load_text_dims, load_word2vec, write_fasttext, write_text,
                                write_text_dims, write_word2vec)
from finalfusion.io import ChunkIdentifier, find_chunk
from ffmon import gen, lib, ref
from ffmon.lib import load_finalfusion
from ffmon.props.c03 import LOADERS
from ffmon.props.c05 import make_ft
from ffmon.props.c19 import freeze

KW = dict(ascii_ws=False, empty=False, nul=False)


def handles(root):
    """Open descriptors of this process that lead into the case's directory."""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if p.startswith(root + "/"):
            out.append((int(fd), p))
    return out


def mappings(root):
    with open("/proc/self/maps", errors="surrogateescape") as f:
        return [ln.strip() for ln in f if root + "/" in ln]


def released(t, what, mapped=False):
    """No descriptor, and unless mapped no mapping, is left."""
    h, m = handles(t.root), mappings(t.root)
    if mapped:
        # mappings may keep descriptors of their own, so look for open file objects
        if h:
            f = [o for o in gc.get_objects() if isinstance(o, io.FileIO) and not o.closed and str(o.name).startswith(t.root)]
            t.check(not f, what, "left files open beside its mapping:", f)
    else:
        t.check(not h, what, "left open:", h)
        t.check(not m, what, "left mapped:", m)
    t.event("calls observed")


def damaged(r, data):
    k = r.random()
    if k < 0.35:
        return data[:r.randrange(len(data) + 1)]
    if k < 0.6:
        b = bytearray(data)
        for _ in range(r.randint(1, 4)):
            if b:
                b[r.randrange(len(b))] = r.randrange(256)
        return bytes(b)
    if k < 0.7:
        return b""
    if k < 0.8:
        return r.randbytes(r.randint(1, 200))
    return data


def chunk_load(p, kind, **kw):
    """The storage's own load method on an open file."""
    with open(p, "rb") as f:
        if find_chunk(f, [ChunkIdentifier(ref.IDS[kind])]) is None:
            raise ValueError("no storage")
        return lib.SCLS[kind].load(f, **kw)


def loads(t, r):
    """All loaders on intact and damaged files of all formats; exceptions and results are kept while looking."""
    e = gen.embeddings(r, hi=10, max_sub=40, **KW)
    text = lib.toml.dumps(e.meta) if e.meta is not None else None
    n, d = max(1, len(e.vocab.words)), r.choice([1, 2, 3, 5])
    ws = gen.words(r, n, **KW)
    m = gen.matrix(r, n, d)
    files = {
        "fifu": ref.write_fifu(ref.chunks_of(e, text))[0],
        "ft": ref.write_ft(make_ft(r, r.randint(1, 5), d, r.choice([1, 5, 20]))),
    }
    p = t.path()
    emb = lib.Embeddings(lib.NdArray(m), lib.SimpleVocab(ws))
    for k, w in (("w2v", write_word2vec), ("text", write_text), ("textdims", write_text_dims)):
        w(p, emb)
        released(t, w.__name__)
        files[k] = open(p, "rb").read()
    os.unlink(p)
    calls = [("load_finalfusion", load_finalfusion, {}), ("load_finalfusion", load_finalfusion, dict(mmap=True))]
    for name, f, kinds in LOADERS:
        calls.append((name, f, {}))
        if kinds[0] in ref.STORAGES:
            calls.append((name, f, dict(mmap=True)))
    for kw in ({}, dict(mmap=True), dict(mmap=False)):
        calls.append((e.storage.kind + " chunk", lambda p, **kw: chunk_load(p, e.storage.kind, **kw), kw))
    for f in (load_fasttext, load_text, load_text_dims, load_word2vec):
        calls.append((f.__name__, f, {}))
        calls.append((f.__name__, f, dict(lossy=True)))
    natural = dict(load_fasttext="ft", load_text="text", load_text_dims="textdims", load_word2vec="w2v")
    for name, f, kw in r.sample(calls, 12):
        kind = natural.get(name, "fifu") if r.p(0.85) else r.choice(list(files))
        data = files[kind]
        if r.p(0.7):
            data = damaged(r, data)
        p = t.file(data)
        t.note(name, kw, kind, len(data))
        err = res = None
        try:
            res = f(p, **kw)
        except Exception as x:
            err = x  # kept, with its traceback and all frames
        mapped = bool(kw.get("mmap")) and res is not None
        what = f"{name}{kw} {'raising ' + type(err).__name__ if err else 'returning'}"
        released(t, what, bool(kw.get("mmap")))  # a kept exception may keep a mapping of its frames
        if kw.get("mmap") and err is not None:
            x = err = err.with_traceback(None)
            err.__context__ = err.__cause__ = x = None
            gc.collect()
            released(t, what)
        t.event("failed loads observed" if err else "successful loads observed")
        t.sig(name, sorted(kw), kind, type(err).__name__, len(data))
        if mapped:
            s = res.storage if hasattr(res, "storage") else res
            if s.shape[0] * s.shape[1]:
                t.check(mappings(t.root), name, "with mmap=True does not map the file")
                t.event("mappings observed")
            part = s[r.choice([slice(1, None), slice(None, None, 2), slice(None, None, -1), slice(-1, None, -3), slice(0, 1)])]
            held = part.shape[0] * part.shape[1] > 0
            del res, s
            gc.collect()
            released(t, what, True)
            if held:
                t.check(mappings(t.root), name, "with mmap=True: a slice of the storage does not refer to the file")
                t.event("slices that map")
            del part
            gc.collect()
            released(t, f"{what} after the storage and its slices are gone")
            t.event("mappings released")
        res = err = None
        os.unlink(p)
    # nothing stays behind over many calls either
    gc.collect()
    released(t, "all calls")


def writes(t, r):
    """All writers, successful and failing; the data is there when they return."""
    e = gen.embeddings(r, hi=10, max_sub=40, **KW)
    emb = lib.embeddings(e, r)
    bad = lib.Embeddings(lib.NdArray(np.zeros((3, 2), np.float32)), lib.SimpleVocab(["ok", "lone \udc80", "ok2"]))
    badft = lib.Embeddings(lib.NdArray(np.zeros((5, 2), np.float32)), lib.FastTextVocab(["ok", "lone\udc80"], lib.FastTextIndexer(3)))
    ws = [("Embeddings.write", lambda p, x: x.write(p)), ("write_text", lambda p, x: write_text(p, x)),
          ("write_text_dims", lambda p, x: write_text_dims(p, x)), ("write_word2vec", lambda p, x: write_word2vec(p, x)),
          ("write_fasttext", lambda p, x: write_fasttext(p, x)), ("vocab.write", lambda p, x: x.vocab.write(p)),
          ("storage.write", lambda p, x: x.storage.write(p)),
          ("norms.write", lambda p, x: x.norms.write(p) if x.norms is not None else x.vocab.write(p)),
          ("metadata.write", lambda p, x: x.metadata.write(p) if x.metadata is not None else x.vocab.write(p))]
    for name, f in r.sample(ws, 6):
        x = r.choice([emb, emb, bad, badft])
        p = t.path()
        arg = p
        k = r.random()
        if k < 0.1:
            os.mkdir(p)
        elif k < 0.3:
            arg = os.path.join(p, "missing", "x")
        elif k < 0.5:
            with open(p, "wb") as fh:
                fh.write(b"x" * 100000)
        err = None
        try:
            f(arg, x)
        except Exception as y:
            err = y
        what = f"{name} {'raising ' + type(err).__name__ if err else 'returning'}"
        t.note(what)
        released(t, what)
        if err is None:
            now = open(p, "rb").read()
            gc.collect()
            t.check(open(p, "rb").read() == now, what, "but data was written later")
            q = t.path()
            f(q, x)
            t.check(open(q, "rb").read() == now, what, "but the file is not complete")
            t.event("successful writes observed")
        else:
            t.event("failed writes observed")
        t.sig("w", name, type(err).__name__, x is emb, k < 0.1, k < 0.3, e.storage.shape, e.vocab.kind)
        err = None


def detached(t, r):
    """Loaded embeddings do not depend on what happens to the file's name (eager: nor on its contents)."""
    if t.idx % 25 == 7:  # from about 64 KiB to 8 MiB
        kind = r.choice(["nd", "pq"])
        n = r.choice([3000, 20000, 100000] if kind == "pq" else [300, 2000, 15000])
        ws = gen.cheap_words(r, n)
        s = gen.pq(r, n) if kind == "pq" else gen.S("nd", gen.matrix(r, n, r.choice([60, 130]), "normal"))
        e = gen.E(gen.V("simple", ws), s, gen.norms(r, n) if r.p(0.5) else None, None)
        t.event(f"large files {kind}")
    else:
        e = gen.embeddings(r, hi=10, max_sub=40, **KW)
    p, q = t.path(), t.path()
    lib.embeddings(e, r).write(p)
    data = open(p, "rb").read()
    mmap = r.p(0.5)
    cwd = os.getcwd()
    if r.p(0.3):
        os.chdir(t.root)
        try:
            emb = load_finalfusion(os.path.basename(p), mmap=mmap)
        finally:
            os.chdir(cwd)
    else:
        emb = load_finalfusion(p, mmap=mmap)
    before = lib.snapshot(emb) if r.p(0.5) else None
    if not mmap and r.p(0.4):
        with open(p, "r+b") as f:
            f.write(b"\xee" * len(data))
        how = "overwritten"
    elif not mmap and r.p(0.4):
        os.truncate(p, 0)
        how = "truncated"
    elif r.p(0.5):
        os.unlink(p)
        how = "deleted"
    else:
        with open(q, "wb") as f:
            f.write(r.randbytes(len(data)))
        os.replace(q, p)
        how = "replaced"
    t.note(how, "mmap" if mmap else "eager", gen.describe(e))
    lib.check_embeddings(t, emb, e, f"{how} file")
    if before is not None:
        t.check(lib.snapshot(emb) == before, how, "file changes the loaded embeddings")
    x = t.path()
    emb.write(x)
    t.check(open(x, "rb").read() == data, how, "file: rewriting gives another file")
    part = emb.storage[1:]
    a = freeze(np.asarray(part))
    del emb
    gc.collect()
    t.check(freeze(np.asarray(part)) == a, "slice changed when its storage was dropped")
    t.event(f"files {how} {'mmap' if mmap else 'eager'}")
    t.sig("detached", how, mmap, e.vocab.words, e.storage.shape)


def vm_size():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[0]) * resource.getpagesize()


def enormous(t, r):
    """Storages of more than 4 GiB (sparse files), with an address-space limit that forbids a copy."""
    ws = gen.words(r, r.randint(2, 6), maxlen=6, **KW)
    lo = r.choice([2, 3])
    kind = ["nd", "pq"][t.idx % 2]
    v0 = gen.V("ft", ws, lo, lo + r.randint(0, 2), 1)
    if kind == "nd":
        dims = r.choice([300, 512])
        rows = (4 << 30) // (4 * dims) + r.randint(1000, 100000)
        row_bytes = 4 * dims
    else:
        nq, sub, nc = 600, 1, r.choice([2, 16])
        dims = nq * sub
        rows = (4 << 30) // nq + r.randint(1000, 100000)
        row_bytes = nq
    v = gen.V("ft", ws, v0.min_n, v0.max_n, rows - len(ws))
    oov = next(w for w in (gen.word(r, maxlen=8, **KW) for _ in range(1000)) if w not in v.index and v.idx(w))
    touched = sorted(set(range(len(ws))) | {len(ws), rows - 1, rows // 2} | set(v.idx(oov)) |
                     {r.randrange(len(ws), rows) for _ in range(3)})
    norms = gen.norms(r, len(ws), False)
    p = t.path()
    try:
        with open(p, "wb") as f:
            head = b"FiFu" + struct.pack("<II3I", 0, 3, ref.IDS["ft"], ref.IDS[kind], ref.IDS["norms"])
            pos = len(head)
            body = ref.chunk("ft", v, pos)
            f.write(head + body)
            pos += len(body)
            if kind == "nd":
                pad = ref.pad4(pos + 4)
                fixed = struct.pack("<QII", rows, dims, 10) + b"\0" * pad
                data_len = rows * row_bytes
                q = None
            else:
                pad = ref.pad4(pos + 4)
                q = gen.matrix(r, nq * nc, sub, "normal").reshape(nq, nc, sub)
                fixed = struct.pack("<IIIIIQII", 0, 0, nq, dims, nc, rows, 1, 10) + b"\0" * pad + q.astype("<f4").tobytes()
                data_len = rows * row_bytes
            f.write(struct.pack("<IQ", ref.IDS[kind], len(fixed) + data_len) + fixed)
            start = f.tell()
            vals = {}
            for i in touched:
                if kind == "nd":
                    vals[i] = gen.matrix(r, 1, dims, "normal")[0]
                else:
                    vals[i] = r.np.integers(0, nc, nq).astype(np.uint8)
                f.seek(start + i * row_bytes)
                f.write(vals[i].tobytes())
            f.seek(start + data_len)
            f.write(ref.chunk("norms", norms, start + data_len))
    except OSError:
        t.event("sparse files not available")
        return

    def row(i):
        x = vals.get(i)
        if kind == "nd":
            return np.zeros(dims, np.float32) if x is None else x
        c = np.zeros(nq, np.uint8) if x is None else x
        return q[np.arange(nq), c].reshape(dims)
    t.note("enormous", kind, rows, dims)
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (vm_size() + rows * row_bytes + (700 << 20), hard))
    try:
        loads_ = [lambda: load_finalfusion(p, mmap=True), lambda: lib.load_storage(p, mmap=True),
                  lambda: lib.SLOAD[kind](p, mmap=True)]
        for n, load in enumerate(loads_):
            x = load()
            s = x.storage if n == 0 else x
            t.eq(tuple(s.shape), (rows, dims), "shape of a storage of more than 4 GiB")
            for i in touched + [1 + len(ws)]:
                t.bits(np.asarray(s[i]), row(i), "row", i, "of a storage of more than 4 GiB")
            tail = s[rows - 2:]
            t.bits(np.asarray(tail), np.stack([row(rows - 2), row(rows - 1)]), "last rows")
            step = s[::-(rows // 2)]
            for sl in (slice(None, None, 2), slice(None, None, -1)):
                half = s[sl]
                t.bits(np.asarray(half[1]), row(range(rows)[sl][1]), "second row of a slice with a step")
                del half
            most = s[1:][:-1]
            t.bits(np.asarray(most[rows - 3]), row(rows - 2), "last but one row of a slice of more than 4 GiB")
            del most
            t.bits(np.asarray(step[0]), row(rows - 1), "first row of a reversed slice")
            if n == 0:
                lib.check_norms(t, x.norms, norms, "norms behind more than 4 GiB")
                for i, w in enumerate(ws):
                    t.bits(np.asarray(x[w]), row(i), "vector of a known word")
                sm = np.sum([row(i).astype(np.float64) for i in v.idx(oov)], axis=0)
                nm = np.linalg.norm(sm)
                if nm > 1e-3:
                    t.close(x[oov], sm / nm, 1e-4, "vector of an unknown word")
                t.check(x.word_similarity(ws[0], 2) is not None, "similarity query")
            del x, s, tail, step
            gc.collect()
        t.bits(lib.load_norms(p), norms, "load_norms behind more than 4 GiB")
        lib.check_vocab(t, lib.load_vocab(p), v, "vocab before more than 4 GiB")
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    released(t, "enormous")
    t.event(f"storages of more than 4 GiB {kind}")
    t.sig("enormous", kind, rows, dims)
    os.unlink(p)


def live(t):
    gc.collect()
    return sys.getallocatedblocks()


def growth(t, r):
    """Repeating a call with the same arguments does not accumulate objects, descriptors or mappings."""
    e = gen.embeddings(r, hi=10, max_sub=40, with_norms=True, **KW)
    if len(e.vocab.words) < 2:
        e = gen.embeddings(r, ws=["one", "two", "three"], max_sub=40, with_norms=True)
    emb = lib.embeddings(e, r)
    p, q = t.path(), t.path()
    emb.write(p)
    data = open(p, "rb").read()
    cut = t.file(data[:r.randrange(len(data))])
    ws = list(e.vocab.words)
    oov = [gen.word(r, maxlen=9, **KW) for _ in range(3)]
    buf = np.zeros(emb.dims, np.float32)

    def bad():
        try:
            load_finalfusion(cut)
        except Exception:
            pass

    def bad_map():
        try:
            load_finalfusion(cut, mmap=True)
        except Exception:
            pass

    def lookup():
        for w in ws[:3] + oov:
            emb.embedding(w)
            emb.embedding_with_norm(w)
            emb.vocab.idx(w)
            if emb.embedding(w) is not None:
                emb.embedding(w, out=buf)

    def convert():
        if e.vocab.kind in ("ff", "ft"):
            emb.bucket_to_explicit()
        else:
            list(emb)
    ops = dict(load=lambda: load_finalfusion(p), mmap=lambda: load_finalfusion(p, mmap=True), refused=bad, refused_mmap=bad_map,
               write=lambda: emb.write(q), text=lambda: (write_text_dims(q, emb), load_text_dims(q) if emb.dims > 1 else None),
               word2vec=lambda: (write_word2vec(q, emb), load_word2vec(q)), lookup=lookup, convert=convert,
               similar=lambda: emb.word_similarity(ws[0], 3), analogy=lambda: emb.analogy(ws[0], ws[1], ws[0], 3),
               slices=lambda: (emb.storage[1:], np.asarray(emb.storage[::2]), emb.norms[1:]),
               parts=lambda: (lib.load_vocab(p), lib.load_storage(p, mmap=True), lib.load_norms(p)))
    name = r.choice(sorted(ops))
    f = ops[name]
    n = 80
    for _ in range(5):
        f()
    h0, m0 = len(handles(t.root)), len(mappings(t.root))
    seen = [live(t)]
    for _ in range(5):
        for _ in range(n):
            f()
        seen.append(live(t))
    steps = [b - a for a, b in zip(seen, seen[1:])]
    if min(steps) >= n:  # once more, much longer: only what grows with every call is a leak
        for _ in range(6):
            seen.append(live(t))
            for _ in range(4 * n):
                f()
            steps.append((live(t) - seen[-1]) // 4)
    t.note(name, steps, gen.describe(e))
    t.check(min(steps) < n, f"repeated {name}: live memory blocks grow by {steps} in rounds of {n} calls")
    t.eq((len(handles(t.root)), len(mappings(t.root))), (h0, m0), f"descriptors and mappings after repeated {name}")
    t.event(f"repeated {name}")
    t.sig("growth", name, e.vocab.kind, e.storage.kind, e.storage.shape)


WORKLOADS = dict(growth=(growth, 130, 5000), loads=(loads, 800, 25000), writes=(writes, 800, 25000), detached=(detached, 1000, 30000),
                 enormous=(enormous, 8, 40))
