"""C17: word2vec and text formats."""
import numpy as np

from finalfusion.compat import (load_text, load_text_dims, load_word2vec, write_text, write_text_dims, write_word2vec)
from ffmon import gen, lib, ref
from ffmon.core import Violation

KW = dict(ascii_ws=False, empty=False)
LOAD = dict(word2vec=load_word2vec, text=load_text, textdims=load_text_dims)
WRITE = dict(word2vec=write_word2vec, text=write_text, textdims=write_text_dims)


def some(r, n=None, **kw):
    ws = gen.words(r, n, **KW) if n else gen.some_words(r, hi=14, **KW)
    return ws, gen.matrix(r, len(ws), kw.get("cols") or r.choice([1, 1, 1, 2, 2, 3, 5, 10, 17, 17, 64, 100, 300]), kw.get("mk"))


def check_normalized(t, got, words, m, what, err=0.0):
    """Loaded embeddings: unit vectors, norms; m: the vectors in the file (float64)."""
    lib.check_vocab(t, got.vocab, gen.V("simple", words), what)
    m = np.asarray(m, np.float64)
    s = np.asarray(got.storage)
    t.eq(s.shape, m.shape, what, "shape")
    t.check(got.metadata is None, what, "metadata appeared")
    t.check(got.norms is not None and len(got.norms) == len(words), what, "norms missing")
    n = np.linalg.norm(m, axis=1)
    for i, w in enumerate(words):
        if n[i] == 0:
            t.check(not np.any(s[i]) and got.norms[i] == 0, what, "null vector of", repr(w), "became", s[i], got.norms[i])
            t.event("null vectors loaded")
            continue
        d = m.shape[1]
        rel = 1e-6 * (1 + d / 64) + err
        t.check(abs(float(got.norms[i]) - n[i]) <= rel * n[i], what, f"norm of {w!r} is {got.norms[i]}, want {n[i]}")
        t.close(s[i], m[i] / n[i], rel, what, "unit vector of", repr(w))
        t.close(s[i].astype(np.float64) * float(got.norms[i]), m[i], rel * np.abs(m[i]) * 2 + rel * n[i] * 0.5, what,
                "norm times vector of", repr(w))
    t.event("vectors loaded", len(words))


def foreign_word2vec(t, r):
    ws, m = some(r)
    data = ref.write_w2v(ws, m, newline=r.p(0.7))
    t.note("word2vec", ws, m.shape)
    t.sample(format="word2vec", words=[repr(w)[:30] for w in ws[:6]], shape=list(m.shape))
    lossy = r.p(0.3)
    got = load_word2vec(t.file(data), lossy=lossy)
    check_normalized(t, got, ws, m, "word2vec")
    t.event("word2vec files loaded")
    t.sig("w2v", ws, m.shape)


def foreign_text(t, r):
    dims = r.p(0.5)
    ws, m = some(r)
    if not ws:
        if not dims:
            return
    fmts = [lambda x: repr(float(np.float32(x))), lambda x: "%.9g" % x, lambda x: "%.8e" % x, lambda x: "%+.9e" % x,
            lambda x: str(np.float32(x)), lambda x: ("%.60f" % x)]
    fmt = r.choice(fmts)
    sep = r.choice([" ", " ", "\t", "  ", " \t ", "\x0b", "\x0c"])
    end = r.choice(["\n", "\n", "\n", "\r\n"])
    data = ref.write_text(ws, m, dims, sep, fmt, end, r.p(0.8))
    if r.p(0.2):
        # other ASCII whitespace at the end of a line
        data = data.replace(end.encode(), r.choice([b" ", b"\t", b"  "]) + end.encode())
    t.note("text", dims, repr(sep), ws, m.shape)
    got = (load_text_dims if dims else load_text)(t.file(data), lossy=r.p(0.3))
    check_normalized(t, got, ws, m, "text-dims" if dims else "text", 2e-7)
    t.event("text-dims files loaded" if dims else "text files loaded")
    t.sig("text", dims, ws, m.shape, sep)


def numerals(t, r):
    """Words that are numbers, components without a fraction: nothing but the position tells a word from a component, and
    a first line from a header."""
    d = r.choice([1, 1, 1, 2, 3])
    n = r.randint(1, 6)
    pool = ["0", "1", "2", "3", "4", "5", "6", "10", "-1", "+1", "1.5", ".5", "1e3", "nan", "inf", "1,000", "\u0661", "\u00b2", "0x1F", "1_0"]
    ws = r.sample(pool, n)
    if r.p(0.5):
        # the first line looks like the header of this very file
        for w in (str(n), str(d)):
            if w in ws:
                ws.remove(w)
            ws.insert(0, w)
        ws = ws[:max(n, 1)]
        if r.p(0.5) and str(n) in ws:
            ws.remove(str(n))
            ws.insert(0, str(n))
    n = len(ws)
    m = r.np.integers(-3, 6, (n, d)).astype(np.float32)
    if r.p(0.5):
        m[0, 0] = d
    fmt = r.choice([lambda x: "%d" % x, lambda x: "%+d" % x, lambda x: "%d." % x, lambda x: "%.1E" % x, lambda x: "%05d" % x,
                    lambda x: "%.3g" % x])
    dims = t.idx % 2 == 1
    data = ref.write_text(ws, m, dims, r.choice([" ", " ", "\t"]), fmt, "\n", r.p(0.8))
    t.note("numerals", dims, data)
    got = (load_text_dims if dims else load_text)(t.file(data), lossy=r.p(0.3))
    check_normalized(t, got, ws, m, "numerals", 2e-7)
    t.event("files of numbers loaded")
    p = t.path()
    e = gen.E(gen.V("simple", ws), gen.S("nd", m))
    f = ["text", "textdims", "word2vec"][t.idx % 3]
    WRITE[f](p, lib.embeddings(e, r))
    check_normalized(t, LOAD[f](p), ws, m, f + " of numbers", 3e-7)
    t.event("files of numbers written")
    t.sig("numerals", dims, data)


def unwritable(t, r):
    """A word that UTF-8 cannot hold: the file would hold some other word, so the write has to fail."""
    fmt = ["word2vec", "text", "textdims"][t.idx % 3]
    ws = gen.words(r, r.randint(0, 5), **KW)
    i = r.randint(0, len(ws))
    bad = r.choice(["\ud800", "a\udfff", "\udc80b", "x\udcffy"])
    ws = ws[:i] + [bad] + ws[i:]
    m = gen.matrix(r, len(ws), r.choice([1, 3]), "normal")
    p = t.path()
    t.note(fmt, ws)
    try:
        WRITE[fmt](p, lib.embeddings(gen.E(gen.V("simple", ws), gen.S("nd", m)), r))
    except Exception:
        t.event("words refused")
        t.sig("unwritable", fmt, ws)
        return
    t.check(False, fmt, "wrote the word", repr(bad), "as", open(p, "rb").read()[:120])


def expected(e):
    """Unnormalized vectors of the known words, with bounds."""
    n = len(e.vocab.words)
    m = e.storage.dense().astype(np.float64)[:n]
    tol = np.broadcast_to(lib.pq_tol(e.storage), e.storage.shape)[:n]
    if e.norms is not None:
        f = e.norms.astype(np.float64)[:, None]
        m, tol = m * f, tol * np.abs(f)
    return m, tol + np.abs(m) * 2e-7 + 1e-44


def writing(t, r):
    fmt = ["word2vec", "text", "textdims"][t.idx % 3]
    e = gen.embeddings(r, hi=14, **KW)
    t.note(fmt, gen.describe(e))
    emb = lib.embeddings(e, r)
    if r.p(0.4):
        q = t.path()
        emb.write(q)
        emb = lib.load_finalfusion(q, mmap=r.p(0.5))
    p = t.path(r.choice(["", "-ü"]))
    sep = " "
    if fmt != "word2vec" and r.p(0.3):
        sep = r.choice(["\t", "  ", " \t"])
        WRITE[fmt](p, emb, sep=sep)
        t.event("other separators")
    else:
        WRITE[fmt](p, emb)
    data = open(p, "rb").read()
    m, tol = expected(e)
    ws = e.vocab.words
    if not ws and fmt == "text":
        t.eq(data, b"", "text file without words")
        return
    try:
        if fmt == "word2vec":
            gw, gm = ref.parse_w2v(data)
        else:
            gw, gm = ref.parse_text(data, fmt == "textdims", sep)
    except Violation:
        raise
    except Exception as x:
        t.check(False, fmt, f"output is malformed: {x!r}", data[:200])
    t.eq(gw, ws, fmt, "words")
    if ws:
        t.eq(gm.shape, m.shape, fmt, "shape")
        t.close(gm, m, tol, fmt, "vectors")
        if e.norms is None and e.storage.kind == "nd":
            t.check(np.array_equal(gm.astype(np.float32), e.storage.matrix[:len(ws)]), fmt, "vectors without norms are not exact")
            t.event("exact outputs")
    t.event(f"{fmt} files written")
    got = LOAD[fmt](p)
    lib.check_vocab(t, got.vocab, gen.V("simple", ws), fmt + " loaded again")
    s = np.asarray(got.storage).astype(np.float64)
    t.eq(s.shape, m.shape, fmt, "shape loaded again")
    back = s * np.asarray(got.norms).astype(np.float64)[:, None]
    t.close(back, m, tol + np.linalg.norm(m, axis=1)[:, None] * 3e-6 + 1e-44 if len(ws) else 0, fmt, "loaded again")
    t.check(np.all(np.isfinite(s)), fmt, "not finite after loading again")
    t.event(f"{fmt} round trips")
    t.event(f"vocab {e.vocab.kind} storage {e.storage.kind} norms={e.norms is not None}")
    t.sig(fmt, ws, e.storage.kind, e.norms is None, m.shape)


def spaces(t, r):
    """Words that consist of or contain whitespace outside of ASCII."""
    ws = []
    for _ in range(r.randint(2, 8)):
        c = r.choice(gen.UNI_WS + "\u200b\ufeff\u180e\u2060")
        w = r.choice([c, c + c, c + "x", "x" + c, "x" + c + "y", c + "日" + c])
        if w not in ws:
            ws.append(w)
    m = gen.matrix(r, len(ws), r.choice([1, 2, 5]), r.choice(["normal", "zeros", "ints"]))
    for fmt, data in (("word2vec", ref.write_w2v(ws, m)), ("text", ref.write_text(ws, m, False)), ("textdims", ref.write_text(ws, m, True))):
        t.note(fmt, ws)
        got = LOAD[fmt](t.file(data))
        check_normalized(t, got, ws, m, fmt, 2e-7)
        p = t.path()
        WRITE[fmt](p, got)
        t.eq(list(LOAD[fmt](p).vocab.words), ws, fmt, "words after a round trip")
        t.event("words with other whitespace", len(ws))
        t.sig("ws", fmt, ws)


def values(t, r):
    """Every kind of finite component text and binary can hold (moderate magnitudes for the norm)."""
    d = r.choice([1, 2, 6])
    ws = gen.words(r, r.randint(1, 8), **KW)
    exp = r.np.integers(-12, 13, (len(ws), 1))
    m = (r.np.normal(size=(len(ws), d)) * 10.0 ** exp).astype(np.float32)
    m[r.np.random(m.shape) < 0.2] = r.choice([0.0, -0.0, 1.0, -1.0, 0.1, 123456.789, 1e-9])
    fmt = ["word2vec", "text", "textdims"][t.idx % 3]
    e = gen.E(gen.V("simple", ws), gen.S("nd", m))
    p = t.path()
    WRITE[fmt](p, lib.embeddings(e, r))
    data = open(p, "rb").read()
    gw, gm = ref.parse_w2v(data) if fmt == "word2vec" else ref.parse_text(data, fmt == "textdims")
    t.eq(gw, ws, fmt, "words")
    t.check(np.array_equal(np.asarray(gm).astype(np.float32), m), fmt, "values are not exact", gm, m)
    check_normalized(t, LOAD[fmt](p), ws, m, fmt, 3e-7)
    t.event("values written exactly")
    t.sig("values", fmt, m.tobytes())


def nonfinite(t, r):
    """Components that are not finite: never replaced by numbers, and no effect on other words."""
    d = r.choice([1, 2, 3, 6])
    ws = gen.words(r, r.randint(2, 8), **KW)
    m = gen.matrix(r, len(ws), d, "normal")
    bad = r.sample(range(len(ws)), r.randint(1, len(ws)))
    for i in bad:
        m[i, r.randrange(d)] = r.choice([np.nan, np.nan, np.inf, -np.inf])
    fmt = ["word2vec", "text", "textdims"][t.idx % 3]
    p = t.file(ref.write_w2v(ws, m) if fmt == "word2vec" else ref.write_text(ws, m, fmt == "textdims", fmt=lambda x: str(np.float32(x))))
    t.note(fmt, ws, m)
    with np.errstate(all="ignore"):
        got = LOAD[fmt](p)
        t.eq(list(got.vocab.words), ws, fmt, "words")
        good = [i for i in range(len(ws)) if i not in bad]
        s, n = np.asarray(got.storage), np.asarray(got.norms)
        t.eq(s.shape, m.shape, fmt, "shape")
        want = m[good].astype(np.float64)
        t.close(s[good].astype(np.float64) * n[good][:, None], want, 3e-6 * np.linalg.norm(want, axis=1)[:, None], fmt,
                "vectors beside ones that are not finite")
        for i in bad:
            t.check(not np.isfinite(n[i]), fmt, f"norm of {m[i]} is {n[i]}")
            t.check(not np.all(np.isfinite(s[i].astype(np.float64) * float(n[i]))[~np.isfinite(m[i])]), fmt, f"{m[i]} became {n[i]} times {s[i]}")
        # and written, without norms to scale them
        q = t.path()
        WRITE[fmt](q, lib.embeddings(gen.E(gen.V("simple", ws), gen.S("nd", m)), r))
        data = open(q, "rb").read()
        gw, gm = ref.parse_w2v(data) if fmt == "word2vec" else ref.parse_text(data, fmt == "textdims")
        t.eq(gw, ws, fmt, "words written")
        t.check(np.array_equal(np.asarray(gm).astype(np.float32), m, equal_nan=True), fmt, "values that are not finite", gm, m)
    t.event("vectors that are not finite", len(bad))
    t.sig("nonfinite", fmt, m.tobytes())


def large(t, r):
    fmt = ["word2vec", "text", "textdims"][t.idx % 3]
    ws = gen.cheap_words(r, 70000 if t.idx % 9 < 3 else r.choice([1500, 9000]))
    d = r.choice([2, 10])
    if 3 <= t.idx % 9 < 6:
        ws, d = ws[:r.choice([1, 3, 40])], r.choice([301, 1025, 1200, 2100, 4097, 12000])
        if r.p(0.5):
            ws = list(dict.fromkeys(ws + [gen.long_word(r, n) for n in (1000, 4100, r.choice([8200, 20000, 70000]))]))
    m = gen.matrix(r, len(ws), d, r.choice(["normal", "zeros"]))
    p = t.file(ref.write_w2v(ws, m) if fmt == "word2vec" else ref.write_text(ws, m, fmt == "textdims"))
    got = LOAD[fmt](p)
    t.eq(list(got.vocab.words), ws, "words of a large file")
    back = np.asarray(got.storage).astype(np.float64) * np.asarray(got.norms)[:, None]
    true = np.linalg.norm(m.astype(np.float64), axis=1)
    t.close(back, m, 3e-6 * true[:, None], "vectors of a large file")
    t.close(np.asarray(got.norms), true, 1e-5 * true, "norms of a large file")
    q = t.path()
    WRITE[fmt](q, got)
    data = open(q, "rb").read()
    try:
        gw, gm = ref.parse_w2v(data) if fmt == "word2vec" else ref.parse_text(data, fmt == "textdims")
    except (ref.Malformed, ValueError) as x:
        t.check(False, "large output", fmt, f"is malformed: {x}")
    t.eq(gw, ws, "words in the bytes of a large output")
    t.close(gm, m, 1e-5 * np.linalg.norm(m.astype(np.float64), axis=1)[:, None], "vectors in the bytes of a large output")
    again = LOAD[fmt](q)
    t.eq(list(again.vocab.words), ws, "words of a large output")
    t.close(np.asarray(again.storage), np.asarray(got.storage), 1e-5, "vectors of a large output")
    t.event("large files")


WORKLOADS = dict(nonfinite=(nonfinite, 600, 20000), foreign_word2vec=(foreign_word2vec, 1200, 40000), foreign_text=(foreign_text, 1800, 60000), writing=(writing, 3000, 90000),
                 spaces=(spaces, 400, 10000), numerals=(numerals, 900, 20000), unwritable=(unwritable, 90, 1500),
                 values=(values, 600, 15000), large=(large, 18, 300))
