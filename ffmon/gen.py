"""Hostile generators: words, vocabularies, storages, metadata, queries."""
import datetime
import unicodedata

import numpy as np
import toml

from ffmon import ref
from ffmon.ref import V, S, E

ASCII_WS = " \t\n\r\x0b\x0c"
UNI_WS = "\x85\xa0\u1680\u2000\u2003\u2007\u2028\u2029\u202f\u205f\u3000\x1c\x1d\x1e\x1f"
ODD = "\ufeff\u200b\u200d\u00ad\u0301\u0308\u0327\ufffd\ufffe\uffff\u0130\u0131\u1e9e\ufb01\u212b\u03c2\u0000\x7f\x80\x7f\u07ff\u0800\ud7ff\ue000\U00010000\U0010ffff"
POOLS = [
    "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJ", "0123456789.,-+eE", "<>", "äöüßéèñçøåæœ",
    "абвгдежзийклмн", "αβγδεζηθικλμ", "日本語中文字漢検査", "한국어단어", "ๆไทยกขค", "👍🏽🎉🚀👨‍👩‍👧", "𝒜𝒷𝔄𝔟𐍈𠀋",
    "אבגדהוזח", "عربيةكلمات", UNI_WS, ODD, "'\"\\/[]{}()=#%&;:", "_-–—…",
]
SEEDS = ["the", "Berlin", "naïve", "naive", "Straße", "STRASSE", "strasse", "<", ">", "<>", "<s>", "</s>",
         "a", "A", "ß", "ẞ", "é", "e\u0301", "Å", "Å", "ﬁ", "fi", "İ", "i̇", "Σ", "ς", "σ", "日", "👍", "👍🏽",
         "\u00a0", "\u3000", "x\u00a0y", "\u2028", "\x85", "\ufeffbom", "0", "00", "nan", "inf", "-1", "1e5",
         "None", "true", "\u0000x", "tübingen", "überspringen", "\U0010ffff", "\u07ff\u0800", "\ud7ff\ue000"]


def word(r, ascii_ws=True, empty=True, nul=True, maxlen=12):
    k = r.random()
    if k < 0.25:
        w = r.choice(SEEDS)
    elif k < 0.30:
        w = unicodedata.normalize(r.choice(["NFC", "NFD", "NFKC", "NFKD"]), word(r, ascii_ws, empty, nul, maxlen))
    elif k < 0.34:
        w = getattr(word(r, ascii_ws, empty, nul, maxlen), r.choice(["upper", "lower", "title", "swapcase", "casefold"]))()
    elif k < 0.37:
        c = r.choice(r.choice(POOLS))
        w = c * r.randint(1, maxlen)
    elif k < 0.40 and ascii_ws:
        w = r.choice(ASCII_WS + " ") + word(r, ascii_ws, empty, nul, maxlen) + r.choice(["", " ", "\n", "\t"])
    elif k < 0.43:
        w = r.choice(UNI_WS) + word(r, ascii_ws, empty, nul, maxlen) + r.choice(["", "\u00a0", "\u3000"])
    elif k < 0.46:
        w = "".join(chr(rand_cp(r)) for _ in range(r.randint(1, maxlen)))
    else:
        n = r.randint(1, 3)
        pools = [r.choice(POOLS) for _ in range(n)]
        w = "".join(r.choice(r.choice(pools)) for _ in range(r.randint(1, maxlen)))
    if not ascii_ws:
        w = "".join(c for c in w if c not in ASCII_WS)
    if not nul:
        w = w.replace("\0", "")
    w = "".join(c for c in w if not 0xd800 <= ord(c) < 0xe000)
    if not w and not (empty and r.p(0.5)):
        w = r.choice("abcxyzé日")
    return w


def rand_cp(r):
    hi = r.choice([0x80, 0x800, 0x10000, 0x110000])
    while True:
        c = r.randrange(hi)
        if not 0xd800 <= c < 0xe000:
            return c


def long_word(r, n, **kw):
    pool = r.choice(POOLS[:1] + POOLS[4:13])
    w = "".join(r.choice(pool) for _ in range(n))
    w = "".join(c for c in w if c not in "\0" and not c.isspace())
    return w or "x" * n


def words(r, n, maxlen=12, **kw):
    out, seen = [], set()
    fam = None
    tries = 0
    while len(out) < n:
        tries += 1
        k = r.random()
        if tries > 20 * n + 200:
            w = f"w{len(out)}_{r.randrange(1 << 30)}"
        elif out and k < 0.15:
            b = r.choice(out)
            w = r.choice([b + r.choice("aé日x"), b[:-1], b[1:], b[::-1], b + b, b + "\u0301", b.upper(), b.lower(),
                          unicodedata.normalize("NFD", b), unicodedata.normalize("NFC", b), b + "\u00a0",
                          "\u3000" + b, "<" + b, b + ">"])
            if not kw.get("ascii_ws", True) and any(c in ASCII_WS for c in w):
                continue
            if not w and not kw.get("empty", True):
                continue
        else:
            w = word(r, maxlen=maxlen, **kw)
        if w in seen:
            continue
        seen.add(w)
        out.append(w)
    return out


def cheap_words(r, n, odd=False):
    """Many distinct words quickly; odd ones carry whitespace, capitals and control characters."""
    base = r.choice(["w", "ü", "日", "👍", ""])
    out = [f"{base}{i:x}" for i in range(n)]
    if odd:
        mask = r.np.integers(0, 12, n)
        wrap = [("", " "), (" ", ""), ("", "\n"), ("\t", "\r"), ("\u00a0", ""), ("", "\u3000"), ("\0", "\0"), ("Ü", "e\u0301"), ("\ufeff", "")]
        out = [wrap[k][0] + w + wrap[k][1] if k < len(wrap) else w for w, k in zip(out, mask)]
    r.shuffle(out)
    return out


def block_count(r, most=340000):
    """Numbers of items at and beside multiples of the sizes code works in blocks of."""
    b = r.choice([100, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 20000, 32768, 65536, 100000])
    return max(1, min(b * r.choice([1, 1, 2, 3, 4, 5]), most // b * b) + r.choice([-1, 0, 1]))


def some_words(r, lo=0, hi=24, **kw):
    k = r.random()
    if k < 0.06:
        n = lo
    elif k < 0.14:
        n = max(lo, 1)
    else:
        n = r.randint(max(lo, 1), hi)
    ws = words(r, n, **kw)
    if n == 1 and kw.get("empty", True) and r.p(0.2):
        return [""]
    if ws and r.p(0.06):
        w = long_word(r, r.choice([255, 256, 257, 300, 1000]))
        if w not in ws:
            ws[r.randrange(len(ws))] = w
    return ws


def oov(r, v, **kw):
    """A word that is not in the vocabulary, often near a known one."""
    for _ in range(50):
        if v.words and r.p(0.7):
            b = r.choice(v.words)
            w = r.choice([b + "x", "x" + b, b + b, b[:-1], b[1:], b.upper(), b + " ", " " + b, b[::-1], b + "\u0301",
                          b + r.choice(v.words), unicodedata.normalize("NFD", b), b + "\u00a0", b.swapcase(), b + "\n",
                          "<" + b, b + ">", b[: max(1, len(b) // 2)]])
        else:
            w = word(r, **kw)
        if w not in v.index:
            return w
    return "zz" + "".join(r.choice("qxzj") for _ in range(9))


# ---------------------------------------------------------------- vocabularies
def vocab(r, kind=None, ws=None, max_sub=400, big=False, **kw):
    kind = kind or r.choice(ref.VOCABS)
    if ws is None:
        ws = some_words(r, **kw)
    if kind == "simple":
        return V("simple", ws)
    lo = r.choice([1, 1, 2, 3, 3, 3, 4, 5, 7])
    hi = r.choice([lo, lo, lo + 1, 6 if lo <= 6 else lo + 2, lo + 3, 20 if r.p(.3) else lo + 1])
    if big and r.p(0.5):
        # sizes without a storage
        lo = r.choice([lo, 255, 256, 1000, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1])
        hi = min(2**32 - 1, max(lo, r.choice([hi, lo, lo + 1, 256, 65536, 2**31, 2**32 - 1])))
        if kind == "ff":
            return V("ff", ws, lo, hi, r.choice([21, 31, 32, 33, 40, 62, 63, r.randint(1, 63)]))
        if kind == "ft":
            return V("ft", ws, lo, hi, r.choice([2000000, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, r.randint(1, 2**32 - 1)]))
    if kind == "ff":
        e = r.randint(1, max(1, int(np.log2(max(2, max_sub)))))
        return V("ff", ws, lo, hi, e)
    if kind == "ft":
        b = r.choice([1, 2, 3, 7, 10, 64, 100, 255, 256, 257, r.randint(1, max_sub)])
        return V("ft", ws, lo, hi, min(b, max_sub))
    # explicit
    grams, seen = [], set()
    src = list(ws[:30]) + [word(r, maxlen=6) for _ in range(r.randint(0, 3))]
    for w in src:
        for g in ref.ngrams(w, lo, hi)[:40]:
            if g not in seen and r.p(0.8):
                seen.add(g)
                grams.append(g)
    while r.p(0.3):
        # n-grams outside of the range or of no word can be in a table as well
        g = word(r, maxlen=9)
        if g not in seen:
            seen.add(g)
            grams.append(g)
    if r.p(0.05):
        grams = []
    grams = grams[:max_sub]
    r.shuffle(grams)
    style = r.choice(["identity", "shared", "shuffled"])
    n = len(grams)
    if style == "identity" or n == 0:
        idx = {g: i for i, g in enumerate(grams)}
    else:
        m = n if style == "shuffled" else r.randint(1, n)
        vals = list(range(m)) + [r.randrange(m) for _ in range(n - m)]
        r.shuffle(vals)
        idx = dict(zip(grams, vals))
    return V("explicit", ws, lo, hi, None, grams, idx)


def many_ngrams(r, n, g):
    """An explicit vocabulary of n words and g n-grams."""
    ws, grams = cheap_words(r, n), cheap_words(r, g)
    m = g if r.p(0.5) else r.randint(g * 9 // 10, g)
    vals = list(range(m)) + [r.randrange(m) for _ in range(g - m)]
    r.shuffle(vals)
    return V("explicit", ws, 1, 9, None, grams, dict(zip(grams, vals)))


# ---------------------------------------------------------------- arrays
def bits_matrix(r, shape):
    """Any float32 bit patterns, including NaN payloads, inf, denormals, -0."""
    n = int(np.prod(shape))
    a = r.np.integers(0, 1 << 32, n, dtype=np.uint64).astype(np.uint32)
    special = np.array([0, 0x80000000, 1, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 0x3f800000,
                        0x7f7fffff, 0x00800000], dtype=np.uint32)
    if n:
        m = r.np.random(n) < 0.2
        a[m] = special[r.np.integers(0, len(special), int(m.sum()))]
    return a.view(np.float32).reshape(shape)


def matrix(r, rows, cols, kind=None):
    """Finite matrices for computations."""
    kind = kind or r.choice(["normal", "normal", "ints", "unit", "dups", "scales", "zeros", "tiny", "huge", "ordered"])
    if rows == 0 or cols == 0:
        return np.zeros((rows, cols), np.float32)
    if kind == "ints":
        a = r.np.integers(-3, 4, (rows, cols))
    elif kind == "unit":
        a = r.np.normal(size=(rows, cols))
        a = a / np.linalg.norm(a, axis=1, keepdims=True)
    elif kind == "dups":
        k = r.randint(1, min(4, rows))
        a = r.np.normal(size=(k, cols))[r.np.integers(0, k, rows)]
    elif kind == "scales":
        a = r.np.normal(size=(rows, cols)) * 10.0 ** r.np.integers(-3, 4, (rows, 1))
    elif kind == "zeros":
        a = r.np.normal(size=(rows, cols))
        a[r.np.random(rows) < 0.4] = 0
    elif kind == "tiny":
        a = r.np.normal(size=(rows, cols)) * 10.0 ** -r.randint(6, 12)
    elif kind == "huge":
        a = r.np.normal(size=(rows, cols)) * 10.0 ** r.randint(4, 9)
    elif kind == "ordered":
        a = np.arange(rows * cols).reshape(rows, cols) / 7.0
    else:
        a = r.np.normal(size=(rows, cols))
    return np.ascontiguousarray(a, dtype=np.float32)


def layout(r, a, readonly=True):
    """The same values in another memory layout or byte order."""
    k = r.choice(["c", "c", "f", "stride", "be", "be_f", "neg", "off", "ro", "be_stride"])
    if k == "f":
        return np.asfortranarray(a)
    if k in ("stride", "be_stride"):
        b = np.zeros(tuple(2 * s + 1 for s in a.shape), a.dtype)
        v = b[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        v = b[tuple(slice(1, 1 + 2 * s, 2) for s in a.shape)]
        if k == "be_stride" and a.dtype.itemsize > 1:
            b2 = b.astype(b.dtype.newbyteorder(">"))
            return b2[tuple(slice(1, 1 + 2 * s, 2) for s in a.shape)]
        return v
    if k == "neg" and a.shape and a.shape[0]:
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == "be" and a.dtype.itemsize > 1:
        return a.astype(a.dtype.newbyteorder(">"))
    if k == "be_f" and a.dtype.itemsize > 1:
        return np.asfortranarray(a.astype(a.dtype.newbyteorder(">")))
    if k == "off" and a.size:
        buf = np.zeros(a.nbytes + 5, np.uint8)
        v = buf[3:3 + a.nbytes].view(a.dtype) if a.dtype.itemsize == 1 else \
            np.frombuffer(buf.data, dtype=a.dtype, count=a.size, offset=3)
        v = v.reshape(a.shape)
        v[...] = a
        return v
    if k == "ro" and readonly:
        b = a.copy()
        b.setflags(write=False)
        return b
    return a.copy()


def pq(r, rows, finite=True, dims=None, small=False):
    if dims is None:
        nq = r.choice([1, 1, 2, 3, 4, 5, 8])
        sub = r.choice([1, 1, 2, 3, 4, 7])
        if r.p(0.04):
            nq, sub = r.choice([(16, 4), (32, 2), (50, 2), (10, 10), (100, 3), (1, 300), (129, 1)])
    else:
        divs = [d for d in range(1, dims + 1) if dims % d == 0]
        nq = r.choice(divs)
        sub = dims // nq
    nc = r.choice([1, 2, 3, 16, 100, 127, 128, 129, 200, 255, 256, 256, r.randint(1, 256)]) if not small else r.choice([1, 2, 3, 5])
    d = nq * sub
    with_proj = r.p(0.45)
    finite = finite or with_proj
    mk = (lambda *s: matrix(r, int(np.prod(s[:-1])), s[-1], r.choice(["normal", "ints", "scales"])).reshape(s)) \
        if finite else (lambda *s: bits_matrix(r, s))
    q = mk(nq, nc, sub)
    proj = None
    if with_proj:
        k = r.random()
        if finite and k < 0.3:
            proj = np.linalg.qr(r.np.normal(size=(d, d)))[0].astype(np.float32)
        elif finite and k < 0.5:
            proj = np.eye(d, dtype=np.float32)[r.np.permutation(d)]
        else:
            proj = mk(d, d)
    norms = None
    if r.p(0.5):
        norms = np.abs(mk(rows, 1)).reshape(rows) if finite else bits_matrix(r, (rows,))
        if finite and r.p(0.1):
            norms = mk(rows, 1).reshape(rows)
        if finite and r.p(0.1):
            norms = np.full(rows, r.choice([0, 1, 1, 0.5, -2]), np.float32)
    codes = r.np.integers(0, nc, (rows, nq)).astype(np.uint8)
    if rows and r.p(0.3):
        codes[r.randrange(rows)] = nc - 1
    return S("pq", None, q, proj, norms, codes)


def storage(r, rows, kind=None, finite=True, cols=None, mk=None):
    kind = kind or r.choice(["nd", "nd", "pq"])
    if kind == "nd":
        c = cols if cols is not None else r.choice([1, 1, 2, 3, 4, 5, 7, 8, 10, 16, 17, 33])
        if cols is None and rows < 1000 and r.p(0.05):
            c = r.choice([64, 100, 127, 128, 129, 256, 257, 300, 512])
        return S("nd", matrix(r, rows, c, mk) if finite else bits_matrix(r, (rows, c)))
    return pq(r, rows, finite, cols)


def meta(r, depth=0):
    """A dict that toml can represent; the oracle is what toml itself restores."""
    n = r.choice([0, 1, 2, 3, 5]) if depth == 0 else r.randint(0, 2)
    d = {}
    for _ in range(n):
        k = r.choice(["key", "a", "naïve", "日本", "with space", "dims", "x.y", "q\"uote", "emoji👍", "UPPER", "min_n"]) + \
            r.choice(["", "", str(r.randrange(100))])
        z = r.random()
        if z < 0.25:
            v = word(r, maxlen=r.choice([5, 40]))
        elif z < 0.4:
            v = r.choice([0, 1, -1, 2**31, 2**63 - 1, -2**63, r.randrange(-10**6, 10**6)])
        elif z < 0.5:
            v = r.choice([0.5, 1e-5, 1e300, -0.25, 3.0, r.random()])
        elif z < 0.58:
            v = r.p(0.5)
        elif z < 0.68:
            v = [r.randrange(100) for _ in range(r.randint(0, 4))]
        elif z < 0.76:
            v = [word(r, maxlen=4) for _ in range(r.randint(1, 3))]
        elif z < 0.82:
            v = datetime.datetime(2020, 1, 2, 3, 4, 5)
        elif z < 0.9:
            v = "line1\nline2 \u2028 \"quoted\" \\ tab\t" + word(r)
        elif depth < 2:
            v = meta(r, depth + 1)
        else:
            v = "leaf"
        d[k] = v
    if depth:
        return d
    try:
        # only what the toml package itself restores faithfully
        back = toml.loads(toml.dumps(d))
        if toml.dumps(back) == toml.dumps(toml.loads(toml.dumps(back))) and \
                canon(toml.loads(toml.dumps(back))) == canon(back):
            return back
    except Exception:
        pass
    return {"fallback": "x", "n": r.randrange(100)}


def canon(x):
    """Type-aware comparable form of a TOML value."""
    if isinstance(x, dict):
        return ("d", tuple(sorted((k, canon(v)) for k, v in x.items())))
    if isinstance(x, list):
        return ("l", tuple(canon(v) for v in x))
    if hasattr(x, "isoformat"):
        return (type(x).__name__, x.isoformat())
    return (type(x).__name__, repr(x))


def norms(r, n, finite=True):
    if not finite:
        return bits_matrix(r, (n,))
    a = np.abs(r.np.normal(size=n)).astype(np.float32) * r.choice([1, 1, 1e-3, 1e3])
    a = a.astype(np.float32) + np.float32(1e-4)
    if n and r.p(0.2):
        a[r.randrange(n)] = 0
    if n and r.p(0.06):
        # nothing says that norms are not negative
        a *= np.where(r.np.random(n) < 0.5, -1, 1).astype(np.float32)
    return a


def embeddings(r, vkind=None, skind=None, finite=True, with_norms=None, with_meta=None, ws=None, cols=None, mk=None,
               max_sub=400, **kw):
    v = vocab(r, vkind, ws, max_sub, **kw)
    s = storage(r, v.upper(), skind, finite, cols, mk)
    n = norms(r, len(v.words), finite) if (r.p(0.55) if with_norms is None else with_norms) else None
    m = meta(r) if (r.p(0.45) if with_meta is None else with_meta) else None
    return E(v, s, n, m)


def describe(e):
    v, s = e.vocab, e.storage
    return dict(vocab=v.kind, n_words=len(v.words), words=[repr(w[:40]) for w in v.words[:6]], min_n=v.min_n, max_n=v.max_n,
                buckets=v.buckets, n_ngrams=len(v.ngram_list or []), storage=s.kind, shape=list(s.shape),
                projection=s.projection is not None, pq_norms=s.norms is not None,
                norms=e.norms is not None, meta=None if e.meta is None else sorted(map(repr, e.meta)))
