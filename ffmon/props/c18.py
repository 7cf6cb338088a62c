"""C18: malformed UTF-8."""
import numpy as np
import toml

from finalfusion.compat import load_fasttext, load_text, load_text_dims, load_word2vec
from ffmon import gen, lib, ref
from ffmon.ref import FT

LOAD = dict(word2vec=load_word2vec, text=load_text, textdims=load_text_dims, fasttext=load_fasttext)
BAD = [b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xc3", b"\xe6\x97", b"\xe6", b"\xf0\x9f\x91", b"\xf0\x9f", b"\xf0", b"\xc0\x80", b"\xc1\xbf",
       b"\xe0\x80\xaf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xf5", b"\xe2\x82",
       b"\xed\xa0\xbd\xed\xb1\x8d", b"\xc3\xc3\xa9", b"\x80\x80\x80", b"\xe6\x97\xff"]
WS = b" \t\n\r\x0b\x0c"


def bad_word(r):
    k = r.random()
    if k < 0.25:
        b = bytes(r.randrange(256) for _ in range(r.randint(1, 8)))
    else:
        a = gen.word(r, ascii_ws=False, empty=False, nul=False, maxlen=4).encode() if r.p(0.7) else b""
        c = gen.word(r, ascii_ws=False, empty=False, nul=False, maxlen=4).encode() if r.p(0.7) else b""
        b = a + r.choice(BAD) + c
        if r.p(0.3):
            b += r.choice(BAD)
    b = bytes(x for x in b if x not in WS and x != 0)
    if r.p(0.06):
        pad = b"ab\xc3\xa9" * r.choice([80, 300, 1200])
        b = pad + b if r.p(0.6) else b + pad
    try:
        b.decode("utf-8")
        return b + b"\xff"
    except UnicodeDecodeError:
        return b


def build(r, words, m, fmt, cfg=None):
    """(file bytes, model of a fastText file or None)"""
    if fmt == "word2vec":
        return ref.write_w2v(words, m, newline=r.p(0.7)), None
    if fmt == "fasttext":
        b = cfg[8]
        ft = FT(cfg, words, [1] * len(words), m)
        return ref.write_ft(ft, output=r.p(0.5)), ft
    return ref.write_text(words, m, fmt == "textdims", r.choice([" ", "\t"])), None


def fresh_words(r, n):
    ws = gen.words(r, n, ascii_ws=False, empty=False, nul=False)
    return [w for w in ws if "\ufffd" not in w] or ["x"]


def the_format(t):
    return ["word2vec", "text", "textdims", "fasttext"][t.idx % 4]


def case(r, fmt, n=None):
    ws = fresh_words(r, n or r.randint(1, 8))
    d = r.choice([1, 2, 5])
    b = 7
    lo = r.choice([1, 3])
    cfg = [d, 5, 5, 5, 5, 1, 1, 2, b, lo, lo + 2, 100, 0.0]
    m = gen.matrix(r, len(ws) + (b if fmt == "fasttext" else 0), d, r.choice(["normal", "ints", "zeros"]))
    return ws, m, cfg


def check(t, got, words, m, fmt, cfg, what):
    if fmt == "fasttext":
        from ffmon.props.c16 import check_loaded
        check_loaded(t, got, FT(cfg, words, [1] * len(words), m), what)
    else:
        from ffmon.props.c17 import check_normalized
        check_normalized(t, got, words, m, what, 3e-7)


def refuse(t, load, p, *msg):
    t.raises(UnicodeDecodeError, lambda: load(p), *msg)
    t.raises(UnicodeDecodeError, lambda: load(p, lossy=False), *msg)
    t.event("malformed words refused")


def malformed(t, r):
    fmt = the_format(t)
    ws, m, cfg = case(r, fmt)
    raw = [w.encode() for w in ws]
    hit = sorted(r.sample(range(len(ws)), r.randint(1, min(3, len(ws)))))
    for i in hit:
        raw[i] = bad_word(r)
    want = [b.decode("utf-8", "replace") for b in raw]
    if len(set(want)) != len(want):
        t.event("replacement made words equal")
        return
    data, _ = build(r, raw, m, fmt, cfg)
    p = t.file(data)
    t.note(fmt, raw)
    t.sample(format=fmt, words=[repr(b)[:40] for b in raw[:5]])
    refuse(t, LOAD[fmt], p, fmt, "malformed word", raw[hit[0]])
    got = LOAD[fmt](p, lossy=True)
    check(t, got, want, m, fmt, cfg, f"lossy {fmt}")
    t.check(all("\ufffd" in list(got.vocab.words)[i] for i in hit), fmt, "malformed words without U+FFFD")
    t.event(f"malformed {fmt} files")
    t.sig(fmt, raw, m.shape)


def wellformed(t, r):
    """The lossy option has no effect on well-formed files."""
    fmt = the_format(t)
    ws, m, cfg = case(r, fmt)
    if r.p(0.4):
        # genuine replacement characters, noncharacters and byte order marks are well-formed
        x = r.choice(["\ufffd", "a\ufffd", "\uffff", "\ufffe", "\ue000", "\U0010ffff", "\u0080"])
        if x not in ws:
            ws[r.randrange(len(ws))] = x
    data, _ = build(r, ws, m, fmt, cfg)
    p = t.file(data)
    t.note(fmt, ws)
    a, b, c = LOAD[fmt](p), LOAD[fmt](p, lossy=True), LOAD[fmt](p, lossy=False)
    for got in (a, b, c):
        check(t, got, ws, m, fmt, cfg, f"well-formed {fmt}")
    t.check(lib.snapshot(a) == lib.snapshot(b) == lib.snapshot(c), fmt, "lossy changes a well-formed file")
    t.event(f"well-formed {fmt} files")
    t.sig("ok", fmt, ws)


def every_sequence(t, r):
    """All two-byte combinations and the listed sequences at each position of a word."""
    fmt = the_format(t)
    k = t.idx // 4
    n = 0
    for j in range(24):
        if k % 3 == 0:
            seq = bytes([r.randrange(0x80, 0x100), r.randrange(0x100)])
        elif k % 3 == 1:
            seq = r.choice(BAD)
        else:
            seq = bytes([r.choice([0xc2, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4]), r.randrange(0x70, 0xd0), r.randrange(0x70, 0xd0),
                         r.randrange(0x70, 0xd0)])
        seq = bytes(x for x in seq if x not in WS and x)
        raw = [b"first", r.choice([seq + b"x", b"x" + seq, b"x" + seq + b"y", "日".encode() + seq + "é".encode()]), b"last"]
        m = gen.matrix(r, 3 + (7 if fmt == "fasttext" else 0), 2, "normal")
        cfg = [2, 5, 5, 5, 5, 1, 1, 2, 7, 3, 5, 100, 0.0]
        p = t.file(build(r, raw, m, fmt, cfg)[0])
        want = raw[1].decode("utf-8", "replace")
        t.note(fmt, raw)
        try:
            raw[1].decode("utf-8")
            ok = True
        except UnicodeDecodeError:
            ok = False
        if ok:
            t.eq(list(LOAD[fmt](p).vocab.words), ["first", want, "last"], fmt, "words")
        else:
            refuse(t, LOAD[fmt], p, fmt, "malformed word", raw[1])
            n += 1
        t.eq(list(LOAD[fmt](p, True).vocab.words), ["first", want, "last"], fmt, "lossy words")
        t.sig("seq", fmt, raw[1])
    t.event("malformed sequences", n)


def buffers(t, r):
    """Malformed sequences around the buffer boundaries of large files."""
    fmt = the_format(t)
    n = 700
    ws = gen.cheap_words(r, n)
    m = gen.matrix(r, n + (7 if fmt == "fasttext" else 0), 3, "ints")
    cfg = [3, 5, 5, 5, 5, 1, 1, 2, 7, 3, 4, 100, 0.0]
    raw = [w.encode() for w in ws]
    for i in r.sample(range(n), 200):
        raw[i] = raw[i] + r.choice(BAD) + r.choice([b"", b"z", "é".encode()])
    want = [b.decode("utf-8", "replace") for b in raw]
    if len(set(want)) != n:
        return
    p = t.file(build(r, raw, m, fmt, cfg)[0])
    refuse(t, LOAD[fmt], p, fmt, "large malformed file")
    got = LOAD[fmt](p, lossy=True)
    t.eq(list(got.vocab.words), want, fmt, "words of a large malformed file")
    if fmt != "fasttext":
        back = np.asarray(got.storage).astype(np.float64) * np.asarray(got.norms)[:, None]
        t.close(back, m, 1e-5, fmt, "vectors of a large malformed file")
    # only the last word is malformed
    raw = [w.encode() for w in ws]
    raw[-1] += b"\xe6\x97"
    p = t.file(build(r, raw, m, fmt, cfg)[0])
    refuse(t, LOAD[fmt], p, fmt, "large file with a malformed last word")
    t.eq(list(LOAD[fmt](p, lossy=True).vocab.words)[-1], raw[-1].decode("utf-8", "replace"), fmt, "last word")
    t.event("large malformed files")


def bad_bytes(r, n):
    """n bytes that are no UTF-8 wherever they stand between ASCII characters."""
    b = r.choice([x for x in BAD if len(x) <= n])
    left = r.randint(0, n - len(b))
    return b"a" * left + b + b"z" * (n - len(b) - left)


def chunks(t, r):
    """finalfusion files have no lossy mode: malformed words, n-grams and metadata are always refused."""
    kind = ["simple", "ff", "ft", "explicit"][t.idx % 4]
    where = r.choice(["word", "word", "ngram" if kind == "explicit" else "word", "meta"])
    e = gen.embeddings(r, kind, lo=1, hi=8, max_sub=40)
    v = e.vocab
    n = r.choice([1, 2, 3, 4, 5, 8])
    mark = "\x02\x03\x04\x05\x06\x07\x0e\x0f"[:n]
    if n < 3 or where == "meta":
        n = max(n, 3)
        mark = "QZXJWVKY"[:n]
    text = None if e.meta is None else toml.dumps(e.meta)
    if where == "word":
        i = r.randrange(len(v.words))
        ws = list(v.words)
        ws[i] = mark
        if len(set(ws)) != len(ws):
            return
        v2 = gen.V(v.kind, ws, v.min_n, v.max_n, v.buckets, v.ngram_list, v.ngram_index)
    elif where == "ngram":
        if not v.ngram_list:
            return
        g = list(v.ngram_list)
        old = g[r.randrange(len(g))]
        g = [mark if x == old else x for x in g]
        v2 = gen.V(v.kind, list(v.words), v.min_n, v.max_n, v.buckets, g, {(mark if k == old else k): j for k, j in v.ngram_index.items()})
    else:
        v2 = v
        text = r.choice([f'a = "{mark}"\n', f'x = 1\n[s]\na = ["b", "{mark}"]\n', f"# {mark}\n", f'"{mark}" = 1\n'])
    data, spans = ref.write_fifu(ref.chunks_of(gen.E(v2, e.storage, e.norms, None if text is None else {}), text))
    m = mark.encode()
    if data.count(m) != 1:
        return
    good = t.file(data)
    lib.load_finalfusion(good)
    bad = data.replace(m, bad_bytes(r, len(m)))
    p = t.file(bad)
    t.note(kind, where, bad[data.index(m) - 8:data.index(m) + len(m) + 2])
    for mmap in (False, True):
        t.raises(Exception, lambda: lib.load_finalfusion(p, mmap=mmap), "finalfusion file with a malformed", where, "mmap", mmap)
    if where == "meta":
        t.raises(Exception, lambda: lib.load_metadata(p), "malformed metadata")
        lib.load_vocab(p)
    else:
        t.raises(Exception, lambda: lib.load_vocab(p), "vocabulary with a malformed", where)
        t.raises(Exception, lambda: lib.VLOAD[kind](p), "vocabulary with a malformed", where)
        lib.load_storage(p)
    t.event(f"malformed finalfusion {where}")
    t.sig("chunks", kind, where, bad)


def commands(t, r):
    """The --lossy option of the programs."""
    from ffmon.cli import run_cli
    fmt = the_format(t)
    ws, m, cfg = case(r, fmt)
    raw = [w.encode() for w in ws]
    hit = sorted(r.sample(range(len(ws)), r.randint(1, min(3, len(ws)))))
    for i in hit:
        raw[i] = bad_word(r)
    want = [b.decode("utf-8", "replace") for b in raw]
    if len(set(want)) != len(want) or any(not w.strip() for w in want):
        return
    src, dst = t.file(build(r, raw, m, fmt, cfg)[0]), t.path()
    t.note("commands", fmt, raw)
    rc, out, err = run_cli(["convert", "-f", fmt, "-t", "finalfusion", src, dst])
    t.check(rc != 0, "ffp-convert accepted a malformed", fmt, "file")
    rc, out, err = run_cli(["convert", "--lossy", "-f", fmt, "-t", "finalfusion", src, dst])
    t.check(rc == 0, "ffp-convert --lossy failed on a malformed", fmt, "file:", err[-500:])
    check(t, lib.load_finalfusion(dst), want, m, fmt, cfg, f"ffp-convert --lossy {fmt}")
    t.event(f"lossy conversions from {fmt}")
    rc, out, err = run_cli(["similar", "-f", fmt, src, t.file(b"x\n")])
    t.check(rc != 0, "ffp-similar accepted a malformed", fmt, "file")
    rc, out, err = run_cli(["similar", "--lossy", "-f", fmt, src, t.file(b"x\n")])
    t.check(rc == 0, "ffp-similar --lossy failed on a malformed", fmt, "file:", err[-500:])
    if fmt == "fasttext":
        rc, out, err = run_cli(["bucket_to_explicit", "-f", fmt, src, dst])
        t.check(rc != 0, "ffp-bucket-to-explicit accepted a malformed file")
        rc, out, err = run_cli(["bucket_to_explicit", "--lossy", "-f", fmt, src, dst])
        t.check(rc == 0, "ffp-bucket-to-explicit --lossy failed:", err[-500:])
        t.eq(list(lib.load_finalfusion(dst).vocab.words), want, "words after ffp-bucket-to-explicit --lossy")
    t.sig("cmd", fmt, raw)


WORKLOADS = dict(malformed=(malformed, 2400, 80000), wellformed=(wellformed, 1200, 30000), every_sequence=(every_sequence, 240, 12000),
                 buffers=(buffers, 24, 400), chunks=(chunks, 2000, 60000), commands=(commands, 800, 20000))
