"""C20: ffp-convert and ffp-bucket-to-explicit."""
import os
import sys

import numpy as np
import toml

from finalfusion.compat import load_fasttext
from ffmon import gen, lib, ref
from ffmon.cli import run_cli, sub_cli
from ffmon.core import Violation
from ffmon.props import c15, c16, c17, c18

FORMATS = ["word2vec", "finalfusion", "fasttext", "text", "textdims"]
KW = dict(ascii_ws=False, empty=False, nul=False)
MMAP = dict(installed=False, on=False, n=0)


def audit(event, _):
    if MMAP["on"] and event == "mmap.__new__":
        MMAP["n"] += 1


def watch():
    """Counts memory maps created from here on."""
    if not MMAP["installed"]:
        sys.addaudithook(audit)
        MMAP["installed"] = True
    MMAP.update(on=True, n=0)


def source(t, r, fmt, **kw):
    """A file of the format. Returns (path, model, number of words, bounds of the unnormalized known vectors)."""
    if fmt == "finalfusion":
        e = gen.embeddings(r, hi=12, max_sub=100, **kw, **KW)
        data, _ = ref.write_fifu(ref.chunks_of(e, None if e.meta is None else toml.dumps(e.meta)))
        return t.file(data), e
    if fmt == "fasttext":
        ws = gen.some_words(r, hi=12, **KW)
        ft = c16.model(r, ws=ws, buckets=r.choice([1, 3, 20, 100]))
        return t.file(ref.write_ft(ft, output=r.p(0.6))), ft
    ws, m = gen.some_words(r, lo=1, hi=12, **KW), None
    m = gen.matrix(r, len(ws), r.choice([1, 2, 3, 5, 10]))
    if fmt == "word2vec":
        return t.file(ref.write_w2v(ws, m, r.p(0.6))), (ws, m)
    return t.file(ref.write_text(ws, m, fmt == "textdims", r.choice([" ", "\t"]))), (ws, m)


def known(fmt, model):
    """words, unnormalized vectors (float64), elementwise error bound after a conversion"""
    if fmt == "finalfusion":
        m, tol = c17.expected(model)
        return model.vocab.words, m, tol
    if fmt == "fasttext":
        v = model.vocab()
        m = model.means().reshape(len(v.words), model.matrix.shape[1])
        a = np.abs(model.matrix.astype(np.float64))
        tol = np.zeros_like(m)
        for i, w in enumerate(v.words):
            idx = [i] + v.sub(w)
            b = a[idx].sum(0) * 4e-7 * (len(idx) + 4) / len(idx)
            tol[i] = b + np.linalg.norm(b) + np.linalg.norm(m[i]) * 2e-6
        return v.words, m, tol + 1e-30
    ws, m = model
    m = m.astype(np.float64)
    return ws, m, np.linalg.norm(m, axis=1)[:, None] * 3e-6 + 1e-30


def argv(r, a, b, src, dst, opts):
    x = []
    if a != "word2vec" or r.p(0.5):
        x += [r.choice(["-f", "--from"]), a]
    if b != "finalfusion" or r.p(0.5):
        x += [r.choice(["-t", "--to"]), b]
    x += opts
    return ["convert"] + (x + [src, dst] if r.p(0.5) else [src, dst] + x)


def supported(a, b, model):
    return b != "fasttext" or a == "fasttext" or (a == "finalfusion" and model.vocab.kind == "ft")


def check_output(t, r, a, b, model, dst, what):
    ws, m, tol = known(a, model)
    if b == "finalfusion":
        try:
            ref.parse_fifu(open(dst, "rb").read())
        except ref.Malformed as x:
            t.check(False, what, f"output is malformed: {x}")
        for mmap in (False, True):
            got = lib.load_finalfusion(dst, mmap=mmap)
            if a == "finalfusion":
                lib.check_embeddings(t, got, model, what)
            elif a == "fasttext":
                c16.check_loaded(t, got, model, what)
            else:
                c17.check_normalized(t, got, ws, m, what, 3e-7)
        return
    data = open(dst, "rb").read()
    if b == "fasttext":
        if a == "finalfusion":
            c16.check_written(t, dst, model, what)
            return
        back, _ = ref.parse_ft(data)
        t.eq(back.words, ws, what, "words")
        t.eq((back.cfg[0], back.cfg[8:11]), (model.cfg[0], model.cfg[8:11]), what, "configuration")
        t.bits(back.matrix[len(ws):], model.matrix[len(ws):], what, "bucket vectors")
        v = model.vocab()
        o = model.matrix.astype(np.float64)
        for i, w in enumerate(ws):
            idx = v.sub(w)
            s = np.abs(o[[i] + idx]).sum(0)
            t.close(back.matrix[i], o[i], (s + np.linalg.norm(s)) * 1e-6 * (len(idx) + 6) + 1e-30, what, "vector of", repr(w))
        return
    if b == "text" and not ws:
        t.eq(data, b"", what, "text file without words")
        return
    try:
        gw, gm = ref.parse_w2v(data) if b == "word2vec" else ref.parse_text(data, b == "textdims", " ")
    except Exception as x:
        t.check(False, what, f"output is malformed: {x!r}", data[:200])
    t.eq(gw, ws, what, "words")
    if ws:
        t.eq(gm.shape, m.shape, what, "shape")
        t.close(gm, m, tol, what, "vectors")


def convert(t, r, run=None):
    a, b = FORMATS[t.idx % 5], FORMATS[t.idx // 5 % 5]
    src, model = source(t, r, a, **(dict(vkind="ft") if b == "fasttext" and a == "finalfusion" and r.p(0.7) else {}))
    dst = t.path(r.choice(["", ".out", " ü"]))
    opts = (["-l"] if r.p(0.15) else ["--lossy"] if r.p(0.15) else []) + (["--mmap"] if r.p(0.4) else [])
    before = open(src, "rb").read()
    in_place = "--mmap" not in opts and supported(a, b, model) and r.p(0.08)
    if in_place:
        dst = src
        t.event("files replaced by their conversion")
    elif r.p(0.15):
        with open(dst, "wb") as f:
            f.write(b"stale" * 2000)
        t.event("outputs replaced")
    args = argv(r, a, b, src, dst, opts)
    t.note("ffp-convert", args[1:], gen.describe(model) if a == "finalfusion" else (model[0] if isinstance(model, tuple) else model.words))
    t.sample(args=args)
    watch()
    rc, out, err = (run or run_cli)(args)
    MMAP["on"] = False
    if not in_place:
        t.eq(open(src, "rb").read(), before, "the input changed")
    what = f"ffp-convert {a} to {b}"
    if not supported(a, b, model):
        t.check(rc != 0, what, "of an unsupported vocabulary has status 0")
        t.event("unsupported conversions refused")
        t.sig(a, b, "refused", opts)
        return
    t.check(rc == 0, what, "failed:", err[-600:])
    if run is None and a == "finalfusion":
        if "--mmap" in opts and model.storage.shape[0] and model.storage.shape[1]:
            t.check(MMAP["n"] > 0, what, "--mmap did not memory-map the storage")
            t.event("memory-mapped sources")
    check_output(t, r, a, b, model, dst, what)
    t.event(f"converted {a} to {b}")
    t.sig(a, b, opts, before[:200])


def large(t, r):
    """Tens of thousands of words."""
    n = r.choice([5000, 25000, 40000, 70000])
    pairs = [(a, b) for a in FORMATS for b in FORMATS if a != "fasttext" and b != "fasttext" and a != b]
    a, b = pairs[(t.idx * 5 + 1) % len(pairs)]
    ws = gen.cheap_words(r, n)
    m = gen.matrix(r, n, r.choice([2, 3]), "normal")
    if a == "finalfusion":
        e = gen.E(gen.V("simple", ws), gen.S("nd", m))
        src, model = t.file(ref.write_fifu(ref.chunks_of(e))[0]), e
    elif a == "word2vec":
        src, model = t.file(ref.write_w2v(ws, m, r.p(0.6))), (ws, m)
    else:
        src, model = t.file(ref.write_text(ws, m, a == "textdims", " ")), (ws, m)
    dst = t.path()
    rc, _, err = run_cli(argv(r, a, b, src, dst, []))
    what = f"ffp-convert of {n} words from {a} to {b}"
    t.check(rc == 0, what, "failed:", err[-600:])
    check_output(t, r, a, b, model, dst, what)
    t.event("large files converted")
    t.sig("large", a, b, n)


def process(t, r):
    t.idx = t.idx * 7 + r.randrange(25)
    convert(t, r, sub_cli)
    t.event("processes")


def lossy(t, r):
    """Malformed UTF-8 through the command line."""
    a, b = ["word2vec", "text", "textdims", "fasttext"][t.idx % 4], FORMATS[t.idx // 4 % 5]
    if b == "fasttext" and a != "fasttext":
        b = "finalfusion"
    ws, m, cfg = c18.case(r, a)
    raw = [w.encode() for w in ws]
    for i in r.sample(range(len(ws)), r.randint(1, len(ws))):
        raw[i] = c18.bad_word(r)
    want = [x.decode("utf-8", "replace") for x in raw]
    if len(set(want)) != len(want):
        return
    src = t.file(c18.build(r, raw, m, a, cfg)[0])
    dst = t.path()
    t.note(a, b, raw)
    rc, _, err = run_cli(argv(r, a, b, src, dst, []))
    t.check(rc != 0, f"ffp-convert {a} to {b} accepted malformed UTF-8 without --lossy", raw)
    opt = r.choice(["-l", "--lossy"])
    rc, _, err = run_cli(argv(r, a, b, src, dst, [opt]))
    t.check(rc == 0, f"ffp-convert {opt} {a} to {b} failed", err[-500:])
    model = (want, m) if a != "fasttext" else ref.FT(cfg, want, [1] * len(want), m)
    check_output(t, r, a, b, model, dst, f"ffp-convert {opt} {a} to {b}")
    t.event("lossy conversions")
    t.sig("lossy", a, b, raw)


def explicit_lossy(t, r):
    """Malformed UTF-8 in fastText input of ffp-bucket-to-explicit."""
    ws, m, cfg = c18.case(r, "fasttext")
    raw = [w.encode() for w in ws]
    for i in r.sample(range(len(ws)), r.randint(1, len(ws))):
        raw[i] = c18.bad_word(r)
    want = [x.decode("utf-8", "replace") for x in raw]
    if len(set(want)) != len(want):
        return
    src, dst = t.file(c18.build(r, raw, m, "fasttext", cfg)[0]), t.path()
    t.note("ffp-bucket-to-explicit", raw)
    f = [r.choice(["-f", "--from"]), "fasttext"]
    for opts in ([], ["--mmap"]):
        rc, _, _ = run_cli(["bucket_to_explicit"] + f + opts + [src, dst])
        t.check(rc != 0, "ffp-bucket-to-explicit", opts, "accepted malformed UTF-8 without --lossy", raw)
    opt = r.choice(["-l", "--lossy"])
    rc, _, err = run_cli(["bucket_to_explicit"] + f + [opt] + (["--mmap"] if r.p(0.3) else []) + [src, dst])
    t.check(rc == 0, f"ffp-bucket-to-explicit {opt} failed", err[-500:])
    x = load_fasttext(src, lossy=True)
    ft = ref.FT(cfg, want, [1] * len(want), m)
    c16.check_loaded(t, x, ft, "source")
    e = gen.E(ft.vocab(), gen.S("nd", np.array(x.storage)), np.array(x.norms), dict(x.metadata))
    c15.check_result(t, r, e, lib.load_finalfusion(dst), f"ffp-bucket-to-explicit {opt}")
    t.event("lossy ffp-bucket-to-explicit")
    t.sig("b2e lossy", raw)


def explicit(t, r):
    a = r.choice(["finalfusion", "finalfusion", "fasttext"])
    if a == "finalfusion":
        src, e = source(t, r, a, vkind=r.choice(["ff", "ft"]))
    else:
        src, ft = source(t, r, a)
        x = load_fasttext(src)
        c16.check_loaded(t, x, ft, "source")
        e = gen.E(ft.vocab(), gen.S("nd", np.array(x.storage)), np.array(x.norms), dict(x.metadata))
    dst = t.path()
    opts = ([r.choice(["-f", "--from"]), a] if a != "finalfusion" or r.p(0.5) else []) + (["--mmap"] if r.p(0.4) else []) + \
        (["--lossy"] if r.p(0.2) else [])
    t.note("ffp-bucket-to-explicit", opts, gen.describe(e))
    sub = t.idx % 40 == 0
    watch()
    rc, _, err = (sub_cli if sub else run_cli)(["bucket_to_explicit"] + opts + [src, dst])
    MMAP["on"] = False
    t.check(rc == 0, "ffp-bucket-to-explicit failed:", err[-600:])
    if a == "finalfusion" and not sub:
        if "--mmap" in opts and all(e.storage.shape):
            t.check(MMAP["n"] > 0, "ffp-bucket-to-explicit --mmap did not memory-map the storage")
    x = lib.load_finalfusion(dst, mmap=r.p(0.5))
    c15.check_result(t, r, e, x, "ffp-bucket-to-explicit")
    t.event(f"ffp-bucket-to-explicit from {a}")
    t.sig("b2e", a, e.vocab.words)


def refused(t, r):
    """Vocabularies, formats and files that the programs do not support."""
    src, e = source(t, r, "finalfusion", vkind=r.choice(["simple", "explicit"]))
    dst = t.path()
    rc, _, err = run_cli(["bucket_to_explicit", src, dst])
    t.check(rc != 0, "ffp-bucket-to-explicit accepted vocabulary", e.vocab.kind)
    for kind in ("simple", "explicit", "ff"):
        src, e = source(t, r, "finalfusion", vkind=kind)
        rc, _, err = run_cli(["convert", "-f", "finalfusion", "-t", "fasttext", src, dst])
        t.check(rc != 0, "ffp-convert to fastText accepted vocabulary", kind)
        t.event("unsupported conversions refused")
    rc, _, err = run_cli(["convert", "-f", r.choice(["fasttxt", "glove", "", "Text", "finalfusion "]), src, dst])
    t.check(rc != 0, "unknown input format")
    rc, _, err = run_cli(["convert", "-f", "finalfusion", "-t", r.choice(["vec", "", "bin"]), src, dst])
    t.check(rc != 0, "unknown output format")
    rc, _, err = run_cli(["convert", "-f", r.choice(FORMATS), t.path(), dst])
    t.check(rc != 0, "missing input file")
    # a file of another format
    for wrong in ("word2vec", "fasttext", "textdims"):
        if e.vocab.words:
            rc, _, err = run_cli(["convert", "-f", wrong, src, dst])
            t.check(rc != 0, "finalfusion file loaded as", wrong)
    rc, _, err = run_cli(["convert", "-f", "finalfusion", t.file(ref.write_w2v(["a"], np.ones((1, 2), np.float32))), dst])
    t.check(rc != 0, "word2vec file loaded as finalfusion")
    t.event("wrong formats refused")
    t.sig("refused", t.idx)


WORKLOADS = dict(large=(large, 24, 300), convert=(convert, 2500, 60000), process=(process, 40, 600), lossy=(lossy, 800, 20000), explicit=(explicit, 600, 15000),
                 explicit_lossy=(explicit_lossy, 200, 4000),
                 refused=(refused, 60, 600))
