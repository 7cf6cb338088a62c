"""C05: truncated and ragged word2vec, fastText and text files."""
import numpy as np

from finalfusion.compat import load_word2vec, load_fasttext, load_text, load_text_dims, write_word2vec, write_fasttext, \
    write_text, write_text_dims
from ffmon import gen, lib, ref

TXT = dict(ascii_ws=False, empty=False, nul=True)


def words_for(r, n, fmt):
    if fmt == "ft":
        return gen.words(r, n, nul=False, empty=True, maxlen=6)
    return gen.words(r, n, maxlen=6, **TXT)


def refuse(t, load, p, lossy, what):
    try:
        got = load(p, lossy=lossy)
    except Exception:
        t.event("incomplete file refused")
        return
    t.check(False, what, f"lossy={lossy}: loaded as {got.n_words} words", list(got.vocab.words)[:5],
            "shape", got.storage.shape)


def snapshot(got):
    return (list(got.vocab.words), np.asarray(got.storage).tobytes(), got.storage.shape, np.asarray(got.norms).tobytes())


def w2v(t, r):
    rows = r.choice([1, 1, 2, 3, 5])
    cols = r.choice([1, 1, 2, 3, 4, 8])
    ws = words_for(r, rows, "w2v")
    m = gen.matrix(r, rows, cols)
    nl = r.p(0.7)
    if r.p(0.5):
        e = gen.E(gen.V("simple", ws), gen.S("nd", m))
        p = t.path()
        write_word2vec(p, lib.embeddings(e))
        data = open(p, "rb").read()
        nl = True
    else:
        data = ref.write_w2v(ws, m, newline=nl)
    p = t.file(data)
    full = snapshot(load_word2vec(p))
    t.note("w2v", ws, m.shape, data[:200])
    t.sample(format="word2vec", words=[repr(w) for w in ws], shape=list(m.shape), bytes=len(data))
    end = len(data) - (1 if nl else 0)
    for cut in range(len(data)):
        with open(p, "wb") as f:
            f.write(data[:cut])
        lossy = bool(cut % 3 == 0)
        if cut < end:
            refuse(t, load_word2vec, p, lossy, f"word2vec file of {len(data)} bytes cut at {cut}")
        else:
            t.check(snapshot(load_word2vec(p, lossy=lossy)) == full, "word2vec without the final newline differs")
        t.event("word2vec cut positions")
        t.sig("w", t.idx, cut)
    # more rows announced than present
    n = rows + r.choice([1, 2, 100])
    hdr, rest = data.split(b"\n", 1)
    open(p, "wb").write(f"{n} {cols}\n".encode() + rest)
    refuse(t, load_word2vec, p, r.p(0.5), f"{n} rows announced, {rows} present")
    open(p, "wb").write(f"{rows} {cols + r.choice([1, 2, 50])}\n".encode() + rest)
    if rows == 1:
        refuse(t, load_word2vec, p, r.p(0.5), "more columns announced than present")
    t.event("word2vec miscounted")


def make_ft(r, rows, dims, buckets=None, words=None):
    lo = r.choice([1, 2, 3, 3, 4])
    hi = r.choice([lo, lo + 1, 6, lo + 3])
    hi = max(lo, hi)
    b = buckets or r.choice([1, 2, 3, 5, 10])
    ws = words if words is not None else words_for(r, rows, "ft")
    cfg = [dims, r.randint(0, 9), r.randint(0, 9), r.randint(0, 9), r.randint(0, 9), r.randint(1, 3), r.randint(1, 3),
           r.randint(1, 3), b, lo, hi, r.randint(0, 99), r.choice([0.0, 1e-4, 0.5])]
    m = gen.matrix(r, len(ws) + b, dims)
    return ref.FT(cfg, ws, [r.randrange(1000) for _ in ws], m, r.randrange(10000))


def ft(t, r):
    rows, dims = r.choice([1, 2, 3, 4]), r.choice([1, 1, 2, 3, 5])
    f = make_ft(r, rows, dims)
    if r.p(0.6):
        data = ref.write_ft(f, output=r.p(0.7))
        end = ref.parse_ft(data)[1]
    else:
        v = f.vocab()
        e = gen.E(v, gen.S("nd", f.matrix), gen.norms(r, rows) if r.p(0.5) else None)
        p = t.path()
        write_fasttext(p, lib.embeddings(e))
        data = open(p, "rb").read()
        end = ref.parse_ft(data)[1]
    p = t.file(data)
    full = snapshot(load_fasttext(p))
    t.note("fastText", f.cfg, f.words, f.matrix.shape, "input matrix ends at", end, "of", len(data))
    t.sample(format="fastText", cfg=f.cfg, words=[repr(w) for w in f.words], bytes=len(data))
    for cut in range(len(data)):
        with open(p, "wb") as fh:
            fh.write(data[:cut])
        lossy = bool(cut % 3 == 0)
        if cut < end:
            refuse(t, load_fasttext, p, lossy, f"fastText file of {len(data)} bytes cut at {cut} (input matrix ends at {end})")
        else:
            t.check(snapshot(load_fasttext(p, lossy=lossy)) == full, "fastText model without output matrix differs")
        t.event("fastText cut positions")
        t.sig("f", t.idx, cut)


def text_lines(r, ws, m, sep, dims):
    fmt = r.choice([repr, lambda x: f"{x:.4f}", lambda x: f"{x:e}", lambda x: str(np.float32(x))])
    return ref.write_text(ws, m, dims, sep, fmt)


def text_cut(t, r):
    dims = bool(t.idx % 2)
    load = load_text_dims if dims else load_text
    rows, cols = r.choice([1, 2, 3, 5]), r.choice([1, 1, 2, 3, 5])
    if not dims:
        rows = max(2, rows)
    ws = words_for(r, rows, "text")
    m = gen.matrix(r, rows, cols)
    sep = r.choice([" ", " ", "\t", "  "])
    data = text_lines(r, ws, m, sep, dims)
    if r.p(0.4):
        p = t.path()
        (write_text_dims if dims else write_text)(p, lib.embeddings(gen.E(gen.V("simple", ws), gen.S("nd", m))))
        data = open(p, "rb").read()
    p = t.file(data)
    full = snapshot(load(p))
    t.note("text", dims, ws, m.shape, data[:300])
    t.sample(format="text-dims" if dims else "text", words=[repr(w) for w in ws], shape=list(m.shape), bytes=len(data))
    first = data.index(b"\n") + 1
    for cut in range(len(data)):
        part = data[:cut]
        lines = part.split(b"\n")
        tail = lines[-1]
        n_tok = len(tail.split())
        lossy = bool(cut % 3 == 0)
        if dims:
            complete = len(lines) - 2  # full rows
            if cut < first:
                must = rows > 0
            elif complete < rows - 1:
                must = True
            else:
                # within (or behind) the last row: at least one component is missing
                must = complete < rows and n_tok < cols + 1
        else:
            must = cut > first and tail != b"" and n_tok < cols + 1
        if must:
            with open(p, "wb") as f:
                f.write(part)
            refuse(t, load, p, lossy, f"{'text-dims' if dims else 'text'} file of {len(data)} bytes cut at {cut}")
            t.event("text-dims cut positions" if dims else "text cut positions")
            t.sig("t", t.idx, cut)
    t.check(snapshot(load(t.file(data[:-1]))) == full, "text without the final newline differs")


def ragged(t, r):
    """Lines with missing or surplus components anywhere in the file."""
    dims = bool(t.idx % 2)
    load = load_text_dims if dims else load_text
    rows, cols = r.randint(2, 8), r.choice([1, 2, 3, 4, 7])
    ws = words_for(r, rows, "text")
    m = gen.matrix(r, rows, cols)
    data = text_lines(r, ws, m, " ", dims)
    lines = data.split(b"\n")[:-1]
    off = 1 if dims else 0
    i = r.randrange(rows)
    comps = lines[off + i].split(b" ")
    k = r.choice(["drop1", "drop_some", "only_one", "none", "extra", "double", "blank", "garbage", "extra_many"])
    w, c = comps[0], comps[1:]
    if k == "drop1":
        c = c[:-1]
    elif k == "drop_some":
        c = c[:r.randrange(len(c))]
    elif k == "only_one":
        c = c[:1]
    elif k == "none":
        c = []
    elif k == "extra":
        c = c + [b"0.5"]
    elif k == "extra_many":
        c = c + [b"1"] * r.randint(1, 5)
    elif k == "double":
        c = c + c
    elif k == "garbage":
        c = list(c)
        c[r.randrange(len(c))] = r.choice([b"x", b"1.2.3", b"--1", "1,5".encode(), b"0x"])
    new = b" ".join([w] + list(c))
    if k == "blank":
        new = r.choice([b"", b"   ", b"\t"])
    if k != "garbage" and k != "blank" and len(c) == cols:
        return
    if k == "blank" and not dims and i == 0:
        return
    lines[off + i] = new
    if k == "blank" and r.p(0.5):
        lines = data.split(b"\n")[:-1]
        if not dims and i == 0:
            return
        lines.insert(off + i, new)
        if dims and r.p(0.5):
            lines[0] = f"{rows + 1} {cols}".encode()
    t.note(k, "row", i, "of", rows, "cols", cols, new)
    t.sig("ragged", dims, k, i, rows, cols)
    if not dims and i == 0 and rows == 1:
        return
    p = t.file(b"\n".join(lines) + b"\n")
    refuse(t, load, p, r.p(0.4), f"{'text-dims' if dims else 'text'} with line {new!r} for {cols} columns ({k})")
    t.event("ragged text files")
    if dims:
        lines = data.split(b"\n")[:-1]
        lines[0] = f"{rows + r.choice([1, 5])} {cols}".encode()
        refuse(t, load, t.file(b"\n".join(lines) + b"\n"), False, "more rows announced than present")
        lines[0] = f"{rows} {cols + r.choice([-1, 1, 2])}".encode()
        refuse(t, load, t.file(b"\n".join(lines) + b"\n"), False, "wrong number of columns announced")
        t.event("miscounted text-dims files")


def large_cut(t, r):
    """Cuts in files larger than read buffers."""
    fmt = ["w2v", "ft", "dims"][t.idx % 3]
    rows, cols = r.choice([700, 3000]), r.choice([5, 30])
    ws = [w for w in gen.cheap_words(r, rows)]
    m = gen.matrix(r, rows, cols, "normal")
    if fmt == "w2v":
        data, load = ref.write_w2v(ws, m), load_word2vec
        end = len(data) - 1
    elif fmt == "ft":
        f = make_ft(r, rows, cols, 50, ws)
        data, load = ref.write_ft(f), load_fasttext
        end = ref.parse_ft(data)[1]
    else:
        data, load = ref.write_text(ws, m, True), load_text_dims
        end = data.rindex(b" ")
    cuts = {end - 1, end - 2, end - 4, end - 5, end - 4 * cols, end - 4 * cols - 1}
    for b in (4096, 8192, 65536):
        cuts |= {b - 1, b, b + 1, 2 * b}
    cuts |= {r.randrange(end) for _ in range(10)}
    for cut in sorted(c for c in cuts if 0 <= c < end):
        refuse(t, load, t.file(data[:cut]), r.p(0.3), f"{fmt} file of {len(data)} bytes cut at {cut}")
        t.event("large files cut")
        t.sig("large", fmt, t.idx, cut)


WORKLOADS = dict(
    w2v=(w2v, 250, 8000), ft=(ft, 150, 4000), text_cut=(text_cut, 300, 10000), ragged=(ragged, 4000, 100000),
    large_cut=(large_cut, 12, 150))
