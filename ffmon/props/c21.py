"""C21: ffp-select."""
import os

import numpy as np
import toml

from finalfusion.compat import load_fasttext, load_text, load_text_dims, load_word2vec
from ffmon import gen, lib
from ffmon.cli import run_cli, sub_cli
from ffmon.props.c07 import Dense
from ffmon.props.c20 import FORMATS, source

LOAD = dict(word2vec=load_word2vec, text=load_text, textdims=load_text_dims, fasttext=load_fasttext)


def line_ok(w):
    """A word that one line of a word list can hold."""
    return w and w == w.strip() and "\n" not in w and "\r" not in w


def make(t, r, fmt):
    """Source file and its model with the vectors the library gives (C16, C17 judge those)."""
    p, m = source(t, r, fmt)
    if fmt == "finalfusion":
        return p, m
    x = LOAD[fmt](p)
    v = m.vocab() if fmt == "fasttext" else gen.V("simple", m[0])
    return p, gen.E(v, gen.S("nd", np.array(x.storage)), np.array(x.norms), None if x.metadata is None else dict(x.metadata))


def word_list(r, e, unknown):
    """lines, and the distinct words of them by whether the source can represent them"""
    v = e.vocab
    pool = [w for w in v.words if line_ok(w)]
    lines = r.sample(pool, r.randint(0, len(pool))) if r.p(0.8) else list(pool)
    for _ in range(r.choice([0, 1, 3, 6])):
        w = gen.oov(r, v, nul=False)
        if line_ok(w) and (unknown or v.idx(w) is not None):
            lines.append(w)
    if unknown:
        for _ in range(20):
            w = r.choice(["q", "zz", "\u2603"]) + r.choice(["", "\u0436\u0436", "x y"]) + r.choice(["", "!", "\U0001f984"])
            if v.idx(w) is None:
                lines.append(w)
                break
    r.shuffle(lines)
    for _ in range(r.choice([0, 0, 1, 4])):
        if lines:
            lines.insert(r.randrange(len(lines) + 1), r.choice(lines))
    return lines


def text(r, lines):
    out = []
    for w in lines:
        out.append((r.choice(["", " ", "\t"]) if r.p(0.1) else "") + w + (r.choice([" ", "\t ", "\u00a0"]) if r.p(0.1) else ""))
    s = r.choice(["\n", "\n", "\n", "\r\n"]).join(out)
    return s + ("\n" if lines and r.p(0.8) else "")


def check_output(t, e, dst, src, want, what):
    got = lib.load_finalfusion(dst)
    t.eq(type(got.vocab).__name__, "SimpleVocab", what, "vocabulary type")
    t.eq(type(got.storage).__name__, "NdArray", what, "storage type")
    words = list(got.vocab.words)
    t.eq(len(words), len(set(words)), what, "repeated words")
    t.eq(set(words), set(want), what, "words")
    t.eq(tuple(got.storage.shape), (len(words), e.storage.shape[1]), what, "shape")
    den = Dense(e.storage)
    for i, w in enumerate(words):
        k = e.vocab.idx(w)
        if isinstance(k, int):
            den.known(t, got[w], k, what, "vector of known word", repr(w))
            t.event("known words selected")
        else:
            den.oov(t, got[w], k, None, what, "vector of unknown word", repr(w))
            t.event("unknown words selected")
    meta = dict(got.metadata or {})
    t.eq(meta.get("source_embeddings"), src, what, "metadata: source")
    if e.meta is None:
        t.check("source_metadata" not in meta, what, "metadata of the source appeared", meta)
    else:
        full = {"source_embeddings": src, "source_metadata": e.meta}
        back = toml.loads(toml.dumps(full))
        if gen.canon(back) == gen.canon(full):
            t.eq(gen.canon(meta.get("source_metadata")), gen.canon(e.meta), what, "metadata of the source")
            t.event("source metadata")


def select(t, r, run=run_cli):
    fmt = FORMATS[t.idx % 5] if r.p(0.5) else "finalfusion"
    src, e = make(t, r, fmt)
    unknown = r.p(0.5)
    ignore = r.p(0.5)
    verbose = r.p(0.4)
    lines = word_list(r, e, unknown)
    distinct = list(dict.fromkeys(lines))
    bad = [w for w in distinct if e.vocab.idx(w) is None]
    good = [w for w in distinct if e.vocab.idx(w) is not None]
    if r.p(0.3):
        src = r.choice([os.path.relpath(src), os.path.join(os.path.dirname(src), ".", os.path.basename(src))])
    dst = t.path()
    stale = None
    if r.p(0.3):
        stale = b"previous content"
        with open(dst, "wb") as f:
            f.write(stale)
    opts = ([r.choice(["-f", "--format"]), fmt] if fmt != "finalfusion" or r.p(0.5) else []) + \
        ([r.choice(["-i", "--ignore_unk"])] if ignore else []) + ([r.choice(["-v", "--verbose"])] if verbose else []) + \
        (["--mmap"] if r.p(0.3) else []) + (["--lossy"] if r.p(0.15) else [])
    data = text(r, lines).encode()
    t.note("ffp-select", opts, gen.describe(e), "list", lines)
    t.sample(opts=opts, lines=[repr(x)[:30] for x in lines[:8]])
    if r.p(0.3):
        rc, out, err = run(["select"] + opts + [src, dst], stdin=data)
        t.event("word lists on stdin")
    else:
        rc, out, err = run(["select"] + opts + [src, dst, t.file(data)])
    what = f"ffp-select {opts}"
    if bad and not ignore:
        t.check(rc != 0, what, "succeeded although", bad, "cannot be represented")
        t.check(any(w in err for w in bad), what, "did not report", bad, ":", err[-400:])
        if stale is None:
            t.check(not os.path.exists(dst), what, "wrote an output although it failed")
        else:
            t.eq(open(dst, "rb").read(), stale, what, "overwrote the output although it failed")
        t.event("failed selections")
        t.sig("fail", lines, e.vocab.words)
        return
    t.check(rc == 0, what, "failed:", err[-600:])
    if not verbose:
        for w in bad:
            t.check(f"'{w}'" not in err, what, "reports the skipped word", w, "without --verbose")
        t.event("quiet selections")
    if verbose:
        for w in bad:
            t.check(w in err, what, "did not report", w)
            t.event("skipped words reported")
    check_output(t, e, dst, src, good, what)
    t.event("selections")
    t.event("words left out", len(bad))
    t.event("repeated lines", len(lines) - len(distinct))
    if bad and good:
        t.event("selections with words left out")
    if not good:
        t.event("empty selections")
    t.event(f"vocab {e.vocab.kind} storage {e.storage.kind}")
    t.sig(lines, e.vocab.words, opts)


def process(t, r):
    select(t, r, sub_cli)
    t.event("processes")


def large(t, r):
    """Long lists with unrepresentable words at the end or spread over the list."""
    n = [800, 800, 6000, 20000][t.idx % 4]
    ws = gen.cheap_words(r, n)
    e = gen.embeddings(r, r.choice(["simple", "explicit", "ff"]), ws=ws, hi=5, max_sub=64, with_meta=r.p(0.5))
    src, dst = t.path(), t.path()
    lib.embeddings(e).write(src)
    lines = r.sample(ws, r.randint(n * 9 // 10 if n > 800 else 300, n)) + [f"{w}\u2603" for w in r.sample(ws, 50)]
    if r.p(0.5):
        r.shuffle(lines)
    bad = [w for w in lines if e.vocab.idx(w) is None]
    p = t.file("\n".join(lines).encode())
    if bad:
        rc, _, err = run_cli(["select", src, dst, p])
        t.check(rc != 0 and not os.path.exists(dst), "long list with unrepresentable words succeeded")
    rc, _, err = run_cli(["select", "-i", src, dst, p])
    t.check(rc == 0, "long list failed:", err[-300:])
    check_output(t, e, dst, src, [w for w in lines if w not in bad], "long list")
    t.event("long lists")


def malformed(t, r):
    """A word list that is not UTF-8: --lossy replaces what cannot be decoded, without it the selection fails."""
    ws = gen.words(r, r.randint(1, 8), ascii_ws=False, empty=False)
    ws = [w for w in ws if line_ok(w)]
    pairs = [(w.encode(), w) for w in ws] + [(b"caf\xe9", "caf\ufffd"), (b"\xff", "\ufffd"), (b"a\xc3", "a\ufffd"), (b"\xc3\x28x", "\ufffd(x")]
    known = ws + [w for _, w in pairs[len(ws):] if r.p(0.6) and w not in ws]
    e = gen.E(gen.V("simple", known), gen.S("nd", gen.matrix(r, len(known), 3, "normal")))
    src, dst = t.path(), t.path()
    lib.embeddings(e).write(src)
    lines = r.sample(pairs, r.randint(1, len(pairs)))
    data = b"\n".join(x for x, _ in lines) + b"\n"
    good = list(dict.fromkeys(w for _, w in lines if w in e.vocab.index))
    broken = any(x != w.encode() for x, w in lines)
    t.note("malformed word list", data, known)
    stdin = r.p(0.3)

    def go(*opts):
        if stdin:
            return run_cli(["select", *opts, src, dst], stdin=data)
        return run_cli(["select", *opts, src, dst, t.file(data)])
    if broken:
        rc, _, err = go("-i")
        t.check(rc != 0, "a word list that is not UTF-8 was accepted without --lossy")
        t.check(not os.path.exists(dst), "wrote an output although the word list is not UTF-8")
        t.event("malformed lists refused")
    rc, _, err = go("-i", "--lossy")
    t.check(rc == 0, "--lossy failed on", data, err[-300:])
    check_output(t, e, dst, src, good, "lossy word list")
    t.event("malformed lists read lossily")
    t.sig("malformed", data, known)


WORKLOADS = dict(malformed=(malformed, 200, 4000), select=(select, 3000, 80000), process=(process, 32, 500), large=(large, 24, 400))
