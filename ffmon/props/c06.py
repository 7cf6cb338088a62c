"""C06: failed writes are reported."""
import contextlib
import ctypes
import errno
import os
import resource
import sys

import numpy as np

from finalfusion.compat import write_word2vec, write_fasttext, write_text, write_text_dims
from ffmon import gen, lib, ref
from ffmon.core import Violation

WRITERS = {
    "fifu": lambda p, e: e.write(p), "word2vec": write_word2vec, "text": write_text, "textdims": write_text_dims,
    "fasttext": write_fasttext,
}


@contextlib.contextmanager
def limit(n):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def attempt(t, write, p, full, n, what):
    """Write with a file size limit of n bytes."""
    if os.path.exists(p):
        os.unlink(p)
    err = None
    with limit(n):
        try:
            write(p)
        except Exception as e:
            err = e
    size = os.path.getsize(p) if os.path.exists(p) else -1
    if err is None:
        t.event("writes reported as successful under a limit")
        data = open(p, "rb").read() if size >= 0 else b""
        t.check(data == full, what, f"returned normally under a limit of {n} bytes, but the file has {size} of {len(full)} bytes"
                                    " or other contents")
    else:
        t.event("failed writes reported")
        t.check(n < len(full), what, f"fails although the limit of {n} bytes suffices: {err!r}")


def dev_full(t, write, full, what):
    """A full device behind a link in the scratch directory, so that nothing can replace or remove the device."""
    p = t.path("-full")
    os.symlink("/dev/full", p)
    try:
        write(p)
    except Exception:
        t.event("full device reported")
        return
    ok = not os.path.islink(p) and open(p, "rb").read() == full
    t.check(ok, what, "to a full device returned normally")


def target(t, r, small=True):
    """(description, write function) of a random output operation."""
    k = r.choice(["fifu", "fifu", "word2vec", "text", "textdims", "fasttext", "chunk"])
    kw = dict(ascii_ws=False, empty=False, nul=False, hi=6, max_sub=12, maxlen=6) if small else {}
    if k == "fasttext":
        e = gen.embeddings(r, "ft", r.choice(["nd", "nd", "pq"]), **kw)
        e.storage = gen.storage(r, e.vocab.upper(), "nd", True, r.choice([1, 2, 5])) if e.storage.kind == "nd" else e.storage
    else:
        e = gen.embeddings(r, **kw)
    if not e.vocab.words and k not in ("fifu", "chunk"):
        e = gen.embeddings(r, "simple", ws=["x", "y"])
        if k == "fasttext":
            k = "text"
    if k == "chunk":
        c = r.choice(["vocab", "storage", "norms", "meta"])
        obj = dict(vocab=lambda: lib.vocab(e.vocab), storage=lambda: lib.storage(e.storage, r),
                   norms=lambda: lib.Norms(gen.layout(r, gen.norms(r, r.randint(0, 50)))),
                   meta=lambda: lib.Metadata(gen.meta(r)))[c]()
        return f"single {c}", obj.write, e
    emb = lib.embeddings(e, r)
    return k, (lambda p: WRITERS[k](p, emb)), e


def every_limit(t, r):
    what, write, e = target(t, r)
    p = t.path()
    write(p)
    full = open(p, "rb").read()
    t.note(what, len(full), gen.describe(e))
    t.sample(operation=what, bytes=len(full))
    lim = range(len(full) + 2) if len(full) <= 700 else \
        sorted({r.randrange(len(full)) for _ in range(250)} | set(range(40)) | set(range(len(full) - 60, len(full) + 2)))
    for n in lim:
        attempt(t, write, p, full, n, what)
        t.event("byte limits tried")
        t.sig(t.idx, n)
    t.event(f"write target {what}")
    if full:
        dev_full(t, write, full, what)
    write(p)
    t.check(open(p, "rb").read() == full, what, "after failed writes gives another file")


def large(t, r):
    """Files beyond the buffer sizes: failures in the middle and at the final flush."""
    fmt = list(WRITERS)[t.idx % 5]
    ws = gen.cheap_words(r, r.choice([300, 2000]))
    cols = r.choice([3, 17, 64] if t.idx % 4 else [600])
    if fmt == "fasttext":
        e = gen.embeddings(r, "ft", "nd", ws=ws, cols=cols, with_norms=r.p(0.5))
    elif fmt == "fifu":
        e = gen.embeddings(r, None, None if cols < 600 else "nd", ws=ws, with_norms=True, cols=None if cols < 600 else cols)
    else:
        e = gen.embeddings(r, "simple", "nd", ws=ws, cols=cols)
    emb = lib.embeddings(e, r)
    write = lambda p: WRITERS[fmt](p, emb)  # noqa: E731
    p = t.path()
    write(p)
    full = open(p, "rb").read()
    lim = {0, 1, len(full) - 1, len(full) - 2, len(full) - 4, len(full) - 5, len(full) - 8193, len(full)}
    for b in (4096, 8192, 65536, 131072):
        for m in (1, 2, 3):
            lim |= {b * m - 1, b * m, b * m + 1}
    # the last block of a buffered file
    last = len(full) // 8192 * 8192
    lim |= {last - 1, last, last + 1, (last + len(full)) // 2}
    lim |= {r.randrange(len(full)) for _ in range(12)}
    for n in sorted(x for x in lim if 0 <= x <= len(full)):
        attempt(t, write, p, full, n, f"large {fmt}")
        t.event("byte limits tried")
        t.sig("large", t.idx, n)
    dev_full(t, write, full, f"large {fmt}")
    t.event(f"large {fmt}")


def scripts(t, r):
    """The command-line writers fail with a non-zero status as well."""
    from ffmon.cli import run_cli
    e = gen.embeddings(r, "ft", "nd", ascii_ws=False, empty=False, nul=False, hi=8, max_sub=20, maxlen=6, with_norms=True)
    if not e.vocab.words:
        return
    src = t.path(".fifu")
    lib.embeddings(e).write(src)
    k = r.choice(["convert", "convert", "convert", "explicit", "select"])
    out = t.path()
    if k == "convert":
        argv = ["convert", "-f", "finalfusion", "-t", r.choice(["word2vec", "finalfusion", "text", "textdims", "fasttext"]), src, out]
    elif k == "explicit":
        argv = ["bucket_to_explicit", src, out]
    else:
        wl = t.file("\n".join(e.vocab.words).encode())
        argv = ["select", src, out, wl]
    rc, _, _ = run_cli(argv)
    if rc != 0 and k == "select":
        return
    t.eq(rc, 0, "exit status of", argv[0])
    full = open(out, "rb").read()
    t.sig("script", argv[:5], len(full))
    t.note(argv, len(full))
    for n in sorted({0, 1, len(full) // 2, len(full) - 1, len(full) - 3} | {r.randrange(len(full)) for _ in range(5)}):
        if not 0 <= n < len(full):
            continue
        os.unlink(out)
        with limit(n):
            rc, _, err = run_cli(argv)
        t.check(rc != 0, "command", argv, f"succeeds under a limit of {n} bytes, {len(full)} needed")
        t.event("failing commands reported")


def setup(req):
    """The fault injection library must be loaded, otherwise the faults do not happen."""
    global SHIM
    SHIM = ctypes.CDLL(None)
    SHIM.ffmon_arm.argtypes = [ctypes.c_long] * 4
    SHIM.ffmon_disarm.argtypes = [ctypes.POINTER(ctypes.c_long)]
    fd = os.open(os.path.join(req["root"], "shim"), os.O_WRONLY | os.O_CREAT)
    with inject(1, 1, 3) as seen:
        got = [os.write(fd, b"0123456789") for _ in range(3)]
    os.close(fd)
    assert got == [10, 3, 10] and seen == dict(writes=3, faults=1), (got, seen)


@contextlib.contextmanager
def inject(n, how, amount=0, persist=False):
    """The n-th write to a regular file is shortened (how=1) or fails with errno `how`."""
    out = (ctypes.c_long * 2)()
    seen = dict(writes=0, faults=0)
    SHIM.ffmon_arm(n, how, amount, 1 if persist else 0)
    try:
        yield seen
    finally:
        SHIM.ffmon_disarm(out)
        seen.update(writes=out[0], faults=out[1])


FAULTS = [("short", 1), ("short", 1), ("ENOSPC", errno.ENOSPC), ("EIO", errno.EIO), ("EDQUOT", errno.EDQUOT), ("EINTR", errno.EINTR),
          ("EAGAIN", errno.EAGAIN)]


def faulty(t, write, p, full, n, kind, amount, persist, what):
    if os.path.exists(p):
        os.unlink(p)
    err = None
    with inject(n, dict(FAULTS)[kind], amount, persist) as seen:
        try:
            write(p)
        except Exception as e:
            err = e
    if not seen["faults"]:
        return
    t.event(f"injected {kind}")
    if err is not None:
        t.event("failed writes reported")
        return
    data = open(p, "rb").read()
    t.check(data == full, what, f"returned normally although write {n} of {seen['writes']} had a fault ({kind}, {amount} bytes,",
            "all later ones too)" if persist else "only this one)", f"and the file has {len(data)} of {len(full)} bytes or other contents")
    t.event("faults survived with a complete file")


def faults(t, r):
    """Single write calls that are shortened or fail, also if later ones succeed again."""
    if t.idx % 3 == 0:
        what, write, e = target(t, r)
    else:
        what = r.choice(list(WRITERS) + ["fifu", "chunk"])
        ws = gen.cheap_words(r, r.choice([30, 300, 1500]))
        cols = r.choice([3, 17, 64])
        if what == "fasttext":
            e = gen.embeddings(r, "ft", "nd", ws=ws, cols=cols, with_norms=r.p(0.5))
        elif what in ("fifu", "chunk"):
            huge = t.idx % 12 == 4
            e = gen.embeddings(r, None, "nd" if huge else None, ws=ws, with_norms=r.p(0.6) or what == "chunk", cols=700 if huge else None)
        else:
            e = gen.embeddings(r, r.choice(["simple", "ff"]), "nd", ws=ws, cols=cols)
        emb = lib.embeddings(e, r)
        if what == "chunk":
            obj = r.choice([emb.vocab, emb.storage, emb.norms])
            what, write = f"single {type(obj).__name__}", obj.write
        else:
            write = lambda p: WRITERS[what](p, emb)  # noqa: E731
    p = t.path()
    with inject(0, 0) as seen:
        write(p)
    full = open(p, "rb").read()
    n = seen["writes"]
    t.note(what, len(full), f"{n} write calls", gen.describe(e))
    t.event("write calls observed", n)
    todo = list(range(n)) if n <= 12 else sorted({0, 1, n - 2, n - 1} | {r.randrange(n) for _ in range(10)})
    for k in todo:
        for kind in {r.choice(FAULTS)[0], "short"}:
            amount = r.choice([1, 2, 3, 7, 100, 4096, 1 << 40])
            faulty(t, write, p, full, k, kind, amount, r.p(0.3) and kind not in ("EINTR", "short") or (kind == "short" and amount > 1000
                                                                                                     and r.p(0.3)), what)
            t.sig("fault", t.idx, k, kind, amount)


WORKLOADS = dict(faults=(faults, 250, 6000), every_limit=(every_limit, 200, 5000), large=(large, 20, 400), scripts=(scripts, 100, 2000))
