"""One scenario of C27 in one environment: prints digests of everything that was observed."""
import gc
import hashlib
import json
import locale
import os
import random
import signal
import sys
import warnings


def digest(x):
    return hashlib.sha256(repr(x).encode("utf-8", "surrogatepass")).hexdigest()[:24]


def state(np):
    """Process-wide state that a library has to leave alone."""
    m = os.umask(0)
    os.umask(m)
    return dict(cwd=os.getcwd(), env=digest(sorted(os.environ.items())), locale=locale.setlocale(locale.LC_ALL), umask=m,
                random=digest(random.getstate()), np_random=digest([str(z) for z in np.random.get_state()]),
                print=repr(sorted(np.get_printoptions().items(), key=lambda kv: kv[0])), err=repr(sorted(np.geterr().items())),
                recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), argv=digest(sys.argv),
                gc=[gc.isenabled(), gc.get_threshold(), gc.get_debug()], warnings=[repr(f) for f in warnings.filters],
                signals=[repr(signal.getsignal(s)) for s in signal.valid_signals() if s not in (signal.SIGKILL, signal.SIGSTOP)],
                path=digest(sys.path), showwarning=warnings.showwarning.__module__,
                excepthook=sys.excepthook is sys.__excepthook__,
                stdout=sys.stdout is sys.__stdout__, stdin=sys.stdin is sys.__stdin__)


def main():
    seed, where, variant = sys.argv[1:4]
    if variant == "nostdin":
        os.close(0)
    if variant == "relative":
        os.chdir(where)
        where = "."
    import numpy as np
    if variant == "printoptions":
        np.set_printoptions(precision=2, threshold=3, edgeitems=1, suppress=True, linewidth=20)
    if variant == "fixedprint":
        np.set_printoptions(precision=3, floatmode="fixed", sign="+", nanstr="?", infstr="!", formatter={"float_kind": "{:.1f}".format})
    np.seterr(divide="warn", over="ignore", under="ignore", invalid="warn")
    warnings.filterwarnings("ignore", message=".*")
    import toml
    before = state(np)
    from finalfusion.compat import (load_fasttext, load_text, load_text_dims, load_word2vec, write_fasttext, write_text,
                                    write_text_dims, write_word2vec)
    from ffmon import gen, lib, ref
    from ffmon.core import R
    r = R(seed)
    e = gen.embeddings(r, hi=12, max_sub=60, ascii_ws=False, empty=False, nul=False)
    if not e.vocab.words:
        e = gen.embeddings(r, ws=["Größe", "日本", "a"], max_sub=60)
    out = {}

    def path(name):
        return os.path.join(where, name)

    def data(name):
        with open(path(name), "rb") as f:
            return f.read()

    def got(emb):
        s = lib.snapshot(emb)[:-1]
        return digest(s)

    emb = lib.embeddings(e, r)
    emb.write(path("a.fifu"))
    out["finalfusion file"] = digest(data("a.fifu"))
    out["loaded"] = got(lib.load_finalfusion(path("a.fifu")))
    m = lib.load_finalfusion(path("a.fifu"), mmap=True)
    out["memory-mapped"] = got(m)
    del m
    for name, w, l in (("w2v", write_word2vec, load_word2vec), ("text", write_text, load_text), ("dims", write_text_dims, load_text_dims)):
        w(path(name), emb)
        out[f"{name} file"] = digest(data(name))
        out[f"{name} loaded"] = got(l(path(name)))
        if name != "w2v":
            write = dict(text=write_text, dims=write_text_dims)[name]
            write(path(name), emb, "\t")
            out[f"{name} file with tabs"] = digest(data(name))
    ws = [w.encode("utf-8") for w in ("naïve", "日本語", "👍🏽", "e\u0301", "\u2028x", "ASCII")]
    mat = gen.matrix(r, len(ws), 3)
    files = dict(text=ref.write_text(ws, mat, False), dims=ref.write_text(ws, mat, True), w2v=ref.write_w2v(ws, mat))
    bad = [ws[0], b"bad\xff\xfe", ws[1], b"\xed\xa0\x80"]
    broken = dict(text=ref.write_text(bad, mat[:4], False), dims=ref.write_text(bad, mat[:4], True), w2v=ref.write_w2v(bad, mat[:4]))
    for k, l in (("text", load_text), ("dims", load_text_dims), ("w2v", load_word2vec)):
        with open(path("f"), "wb") as f:
            f.write(files[k])
        x = l(path("f"))
        out[f"{k} of another program"] = digest([list(x.vocab.words), np.asarray(x.storage).tobytes()])
        with open(path("f"), "wb") as f:
            f.write(broken[k])
        x = l(path("f"), lossy=True)
        out[f"{k} loaded lossily"] = digest([list(x.vocab.words), np.asarray(x.storage).tobytes()])
        try:
            l(path("f"))
            out[f"{k} malformed"] = "accepted"
        except UnicodeError:
            out[f"{k} malformed"] = "refused"
    if e.vocab.kind == "ft":
        write_fasttext(path("ft"), emb)
        out["fastText file"] = digest(data("ft"))
        out["fastText loaded"] = got(load_fasttext(path("ft")))
    if e.vocab.kind in ("ff", "ft"):
        x = emb.bucket_to_explicit()
        out["explicit"] = got(x)
        x.write(path("x.fifu"))
        out["explicit file"] = digest(data("x.fifu"))
    for q in list(e.vocab.words)[:3] + ["unbekannt", "日本語", "Größen"]:
        v = emb.embedding(q)
        out[f"vector of {q!a}"] = None if v is None else digest(np.asarray(v).tobytes())
        out[f"index of {q!a}"] = repr(emb.vocab.idx(q))
    out["iteration"] = digest([(x.word if hasattr(x, "word") else x[0]) for x in emb])
    for w in list(e.vocab.words)[:2]:
        res = emb.word_similarity(w, 5)
        out[f"neighbours of {w!a}"] = None if res is None else digest([(x.word, round(float(x.similarity), 4)) for x in res])
    # conversions by the programs
    from ffmon.cli import run_cli
    for a, b in (("finalfusion", "text"), ("finalfusion", "textdims"), ("finalfusion", "word2vec"), ("finalfusion", "finalfusion")):
        rc, so, _ = run_cli(["convert", path("a.fifu"), path("c"), "-f", a, "-t", b])
        out[f"convert to {b}"] = [rc, so, digest(data("c"))]
    rc, so, _ = run_cli(["convert", path("text"), path("c"), "-f", "text", "-t", "finalfusion"])
    out["convert from text"] = [rc, so, digest(data("c"))]
    after = state(np)
    after["argv"] = before["argv"]
    changed = {k: [before[k], after[k]] for k in before if before[k] != after[k]}
    sys.stdout.write(json.dumps(dict(out=out, changed=changed)))


main()
