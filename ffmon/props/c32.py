"""C32: failed reads are reported."""
import contextlib
import ctypes
import errno
import os

import numpy as np

from finalfusion.compat import load_fasttext, load_text, load_text_dims, load_word2vec
from ffmon import gen, lib, ref
from ffmon.cli import run_cli
from ffmon.core import Violation

KW = dict(ascii_ws=False, empty=False, nul=False)


def setup(req):
    """The fault injection library must be loaded, otherwise the faults do not happen."""
    global SHIM
    SHIM = ctypes.CDLL(None)
    SHIM.ffmon_arm_read.argtypes = [ctypes.c_ulong] * 2 + [ctypes.c_long] * 4
    SHIM.ffmon_disarm_read.argtypes = [ctypes.POINTER(ctypes.c_long)]
    p = os.path.join(req["root"], "shim")
    np.arange(10, dtype=np.uint8).tofile(p)
    fd = os.open(p, os.O_RDONLY)
    with inject(p, 1, 1, 3) as seen:
        got = [len(os.read(fd, 4)) for _ in range(3)]
    os.close(fd)
    assert got == [4, 3, 3] and seen == dict(reads=3, faults=1), (got, seen)
    with inject(p, 0, 0) as seen, open(p, "rb") as f:
        np.fromfile(f, np.uint8)
        np.memmap(f, np.uint8, "r")
    assert seen["reads"] >= 2, seen
    with inject(p, 0, errno.EIO, 4) as seen, open(p, "rb") as f:
        got = np.fromfile(f, np.uint8, 10)
    # interposition of the C library's buffered reads
    assert len(got) < 10 and seen["faults"] == 1, (got, seen)


@contextlib.contextmanager
def inject(p, n, how, amount=0, persist=False):
    """The n-th read or mapping of the file p is shortened (how=1) or fails with errno `how`."""
    out = (ctypes.c_long * 2)()
    seen = dict(reads=0, faults=0)
    st = os.stat(p)
    SHIM.ffmon_arm_read(st.st_dev, st.st_ino, n, how, amount, 1 if persist else 0)
    try:
        yield seen
    finally:
        SHIM.ffmon_disarm_read(out)
        seen.update(reads=out[0], faults=out[1])


LOAD = {"word2vec": load_word2vec, "text": load_text, "textdims": load_text_dims, "fasttext": load_fasttext}


def digest(x):
    """Everything an object holds."""
    if isinstance(x, lib.Embeddings):
        return lib.snapshot(x)
    if isinstance(x, (lib.NdArray, lib.Norms)):
        return type(x).__name__, x.shape, np.asarray(x).tobytes()
    if isinstance(x, lib.QuantizedArray):
        return type(x).__name__, x.shape, np.asarray(x).tobytes()
    if isinstance(x, lib.Metadata):
        return gen.canon(dict(x))
    ix = getattr(x, "subword_indexer", None)
    return type(x).__name__, list(x.words), x.upper_bound, \
        None if ix is None else (ix.min_n, ix.max_n, ix.upper_bound, sorted(ix.ngram_index.items()) if hasattr(ix, "ngram_index") else None)


def subject(t, r):
    """(name, path, load function)"""
    k = r.choice(["fifu", "fifu", "fifu", "chunk", "chunk", "word2vec", "text", "textdims", "fasttext"])
    size = t.idx % 3
    if k in ("fifu", "chunk"):
        if size == 0:
            ws = None
            if r.p(0.25):
                ws = list(dict.fromkeys(gen.words(r, 4) + [gen.long_word(r, r.choice([5000, 9000, 30000])) for _ in range(2)]))
                t.event("long words")
            e = gen.embeddings(r, "simple" if ws and r.p(0.6) else None, ws=ws, with_norms=r.p(0.7), with_meta=r.p(0.6))
        else:
            ws = gen.cheap_words(r, r.choice([300, 3000]))
            e = gen.embeddings(r, None, None, ws=ws, with_norms=r.p(0.7), with_meta=r.p(0.5))
        if e.meta is not None and r.p(0.3):
            e.meta["long"] = "".join(r.choice("ab cdé𝄞") for _ in range(20)) * 3000
            t.event("long metadata")
        p = t.path()
        lib.embeddings(e).write(p)
        mmap = r.p(0.4)
        t.note(k, "mmap" if mmap else "", gen.describe(e))
        if k == "fifu":
            return f"fifu mmap={mmap}", p, lambda: lib.load_finalfusion(p, mmap=mmap)
        c = r.choice(["vocab", "storage"] + ["norms"] * (e.norms is not None) + ["metadata"] * (e.meta is not None))
        f = {"vocab": lambda: lib.load_vocab(p), "storage": lambda: lib.load_storage(p, mmap=mmap), "norms": lambda: lib.load_norms(p),
             "metadata": lambda: lib.load_metadata(p)}[c]
        return f"chunk {c}", p, f
    ws = gen.words(r, r.randint(1, 12), **KW) if size == 0 else gen.cheap_words(r, r.choice([200, 1500]))
    d = r.choice([1, 3, 10, 60])
    if k == "fasttext":
        from ffmon.props.c16 import model
        data = ref.write_ft(model(r, ws=ws, dims=d))
    else:
        m = gen.matrix(r, len(ws), d, "normal")
        data = ref.write_w2v(ws, m) if k == "word2vec" else ref.write_text(ws, m, k == "textdims")
    p = t.file(data)
    lossy = r.p(0.3)
    t.note(k, len(ws), d)
    return k, p, lambda: LOAD[k](p, lossy=lossy)


FAULTS = [("EIO", errno.EIO), ("EIO", errno.EIO), ("short", 1), ("short", 1), ("EINTR", errno.EINTR), ("ENOMEM", errno.ENOMEM), ("ESTALE", errno.ESTALE)]


def reads(t, r):
    """Every read call of a load fails or is shortened once."""
    what, p, load = subject(t, r)
    t.sample(subject=what, bytes=os.path.getsize(p))
    load()
    with inject(p, 0, 0) as seen:
        want = digest(load())
    n = seen["reads"]
    t.check(n > 0, what, "loaded without reading the file")
    t.event("reads observed", n)
    todo = range(n) if n <= 12 else sorted({0, 1, n - 2, n - 1} | {r.randrange(n) for _ in range(12)})
    for k in todo:
        for kind, how in (("EIO", errno.EIO), r.choice(FAULTS)):
            amount = r.choice([0, 1, 2, 3, 4, 7, 8, 100, 4096])
            persist = r.p(0.3) and kind not in ("EINTR",)
            err = got = None
            with inject(p, k, how, amount, persist) as seen:
                try:
                    got = load()
                except Exception as x:
                    err = x
            if not seen["faults"]:
                continue
            t.event(f"injected {kind}")
            msg = f"{what}: read {k} of {n} had a fault ({kind}{', and all later ones' if persist else ''})"
            if err is not None:
                if kind in ("short", "EINTR"):
                    t.check(False, msg, f"and loading failed: {err!r}")
                t.event("failed reads reported")
                continue
            t.check(digest(got) == want, msg, "and something else was loaded")
            t.event("faults survived with the right result")
            t.sig(t.idx, k, kind, amount)
    t.check(digest(load()) == want, what, "loading after failed reads gives something else")
    t.event(f"subject {what}")
    t.sig("subject", what, n, t.idx)


def small_pieces(t, r):
    """Data that arrives in small pieces throughout."""
    what, p, load = subject(t, r)
    want = digest(load())
    for amount in (r.choice([1, 2, 3, 5]), r.choice([7, 16, 100]), r.choice([1000, 4095, 4097])):
        if amount < 6 and os.path.getsize(p) > 15000:
            continue
        with inject(p, 0, 1, amount, True) as seen:
            got = load()
        t.check(digest(got) == want, what, f"in pieces of {amount} bytes is loaded as something else")
        t.event("loads in small pieces")
        t.event("short reads", seen["faults"])
        t.sig("pieces", t.idx, amount)


def programs(t, r):
    """The programs fail if their input cannot be read."""
    e = gen.embeddings(r, "ft", "nd", hi=8, max_sub=20, maxlen=6, with_norms=True, **KW)
    if not e.vocab.words:
        return
    src = t.path(".fifu")
    lib.embeddings(e).write(src)
    out = t.path()
    k = r.choice(["convert", "convert", "explicit", "select", "similar", "analogy"])
    faulty, stdin = src, None
    ws = e.vocab.words
    if k == "convert":
        fmt = r.choice(["finalfusion", "word2vec", "text", "textdims", "fasttext"])
        if fmt != "finalfusion":
            mid = t.path()
            t.eq(run_cli(["convert", "-f", "finalfusion", "-t", fmt, src, mid])[0], 0, "converting to", fmt)
            src = faulty = mid
        argv = ["convert", "-f", fmt, "-t", r.choice(["finalfusion", "word2vec", "text", "textdims"]), src, out]
    elif k == "explicit":
        argv = ["bucket_to_explicit", src, out]
    else:
        lines = [r.choice(ws) for _ in range(40)]
        if k == "analogy":
            lines = [" ".join(r.choice(ws) for _ in range(3)) for _ in range(40)]
        wl = t.file("".join(x + "\n" for x in lines).encode())
        argv = ["select", src, out, wl] if k == "select" else [k, src, wl]
        if r.p(0.6):
            faulty = wl
    rc, so, _ = run_cli(argv)
    if rc != 0:
        return
    full = open(out, "rb").read() if os.path.exists(out) else None
    with inject(faulty, 0, 0) as seen:
        t.eq(run_cli(argv)[0], 0, "exit status of", argv)
    n = seen["reads"]
    for i in sorted({0, n - 1} | {r.randrange(n) for _ in range(4)}):
        if os.path.exists(out):
            os.unlink(out)
        with inject(faulty, i, errno.EIO, 1) as seen:
            rc, so2, _ = run_cli(argv)
        if not seen["faults"]:
            continue
        t.note(argv, "fault in read", i, "of", n, "status", rc)
        if rc == 0:
            now = open(out, "rb").read() if os.path.exists(out) else None
            t.check(now == full and so2 == so, "program", argv, f"succeeds although read {i} of {n} of its {'word list' if faulty != src else 'input'} failed,",
                    "with another result")
        else:
            t.event("failing programs reported")
        t.sig("program", k, i, t.idx)
    t.event(f"program {k}")


WORKLOADS = dict(reads=(reads, 700, 20000), small_pieces=(small_pieces, 250, 6000), programs=(programs, 150, 3000))
