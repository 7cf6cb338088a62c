"""
Independent reference for everything the monitors compare against.

Nothing in here imports or is derived from the library: the n-gram, hashing and
file format definitions are written from the published format descriptions
(finalfusion format, word2vec binary, fastText .bin version 12, text) and are
cross-checked against fixtures made by other implementations (see selftest()).
"""
import re
import struct
import numpy as np

M64 = (1 << 64) - 1
M32 = (1 << 32) - 1
IDS = dict(simple=1, nd=2, ff=3, pq=4, meta=5, norms=6, ft=7, explicit=8)
NAMES = {v: k for k, v in IDS.items()}
VOCABS = ("simple", "ff", "ft", "explicit")
STORAGES = ("nd", "pq")


# ---------------------------------------------------------------- subwords
def ngrams(word, min_n, max_n, bracket=True):
    s = "<" + word + ">" if bracket else word
    out = []
    for i in range(len(s)):
        for n in range(min(max_n, len(s) - i), min_n - 1, -1):
            out.append(s[i:i + n])
    return out


def fifu_hash(ngram):
    h = 0xcbf29ce484222325
    data = struct.pack("<Q", len(ngram)) + b"".join(
        struct.pack("<I", ord(c)) for c in ngram)
    for b in data:
        h = ((h ^ b) * 0x100000001b3) & M64
    return h


def ft_hash(ngram):
    h = 2166136261
    for b in ngram.encode("utf-8"):
        h ^= b if b < 128 else (b | 0xFFFFFF00)
        h = (h * 16777619) & M32
    return h


class V:
    """Vocabulary model."""
    def __init__(self, kind, words, min_n=3, max_n=6, buckets=None,
                 ngram_list=None, ngram_index=None):
        self.kind, self.words = kind, list(words)
        self.min_n, self.max_n, self.buckets = min_n, max_n, buckets
        self.ngram_list, self.ngram_index = ngram_list, ngram_index
        self.index = {w: i for i, w in enumerate(self.words)}
        assert len(self.index) == len(self.words)

    def n_sub(self):
        if self.kind == "simple":
            return 0
        if self.kind == "ff":
            return 1 << self.buckets
        if self.kind == "ft":
            return self.buckets
        return len(set(self.ngram_index.values()))

    def upper(self):
        return len(self.words) + self.n_sub()

    def hash(self, ngram):
        if self.kind == "ff":
            return fifu_hash(ngram) & ((1 << self.buckets) - 1)
        if self.kind == "ft":
            return ft_hash(ngram) % self.buckets
        return self.ngram_index.get(ngram)

    def subwords(self, word, bracket=True):
        return ngrams(word, self.min_n, self.max_n, bracket)

    def sub(self, word, bracket=True, with_ngrams=False, offset=None):
        if self.kind == "simple":
            return []
        off = len(self.words) if offset is None else offset
        out = []
        for g in self.subwords(word, bracket):
            h = self.hash(g)
            if h is not None:
                out.append((g, h + off) if with_ngrams else h + off)
        return out

    def idx(self, word):
        i = self.index.get(word)
        if i is not None:
            return i
        s = self.sub(word)
        return s if s else None


class S:
    """Storage model."""
    def __init__(self, kind, matrix=None, quantizers=None, projection=None,
                 norms=None, codes=None):
        self.kind, self.matrix = kind, matrix
        self.quantizers, self.projection = quantizers, projection
        self.norms, self.codes = norms, codes
        self._dense = None

    @property
    def shape(self):
        if self.kind == "nd":
            return self.matrix.shape
        q = self.quantizers
        return self.codes.shape[0], q.shape[0] * q.shape[2]

    def dense(self):
        """The matrix denoted by the storage, float64 for quantized storage."""
        if self.kind == "nd":
            return self.matrix
        if self._dense is None:
            n, d = self.shape
            q = self.quantizers.astype(np.float64)
            out = np.zeros((n, d))
            sub = q.shape[2]
            for j in range(q.shape[0]):
                out[:, j * sub:(j + 1) * sub] = q[j][self.codes[:, j]]
            if self.projection is not None:
                out = out @ self.projection.astype(np.float64).T
            if self.norms is not None:
                out = out * self.norms.astype(np.float64)[:, None]
            self._dense = out
        return self._dense


class E:
    """Embeddings model."""
    def __init__(self, vocab, storage, norms=None, meta=None):
        self.vocab, self.storage, self.norms, self.meta = vocab, storage, norms, meta


# ---------------------------------------------------------------- finalfusion format
def pad4(pos):
    return 4 - pos % 4


def _items(words):
    out = []
    for w in words:
        b = w.encode("utf-8")
        out.append(struct.pack("<I", len(b)) + b)
    return b"".join(out)


def _le(a, dt):
    return np.ascontiguousarray(a).astype(dt).tobytes()


def chunk(kind, obj, pos):
    """Bytes of one chunk (with header) starting at absolute position pos."""
    cid = IDS[kind]
    pad = b"\0" * pad4(pos + 4)
    if kind == "meta":
        c = obj.encode("utf-8")
    elif kind == "simple":
        c = struct.pack("<Q", len(obj.words)) + _items(obj.words)
    elif kind in ("ff", "ft"):
        c = struct.pack("<QIII", len(obj.words), obj.min_n, obj.max_n,
                        obj.buckets) + _items(obj.words)
    elif kind == "explicit":
        c = struct.pack("<QQII", len(obj.words), len(obj.ngram_list),
                        obj.min_n, obj.max_n) + _items(obj.words)
        parts = [c]
        for g in obj.ngram_list:
            b = g.encode("utf-8")
            parts.append(struct.pack("<I", len(b)) + b +
                         struct.pack("<Q", obj.ngram_index[g]))
        c = b"".join(parts)
    elif kind == "nd":
        m = obj.matrix
        c = struct.pack("<QII", m.shape[0], m.shape[1], 10) + pad + _le(m, "<f4")
    elif kind == "pq":
        q = obj.quantizers
        n, d = obj.shape
        c = struct.pack("<IIIIIQII", obj.projection is not None,
                        obj.norms is not None, q.shape[0], d, q.shape[1], n,
                        1, 10) + pad
        if obj.projection is not None:
            c += _le(obj.projection, "<f4")
        c += _le(q, "<f4")
        if obj.norms is not None:
            c += _le(obj.norms, "<f4")
        c += np.ascontiguousarray(obj.codes).astype(np.uint8).tobytes()
    elif kind == "norms":
        c = struct.pack("<QI", len(obj), 10) + pad + _le(obj, "<f4")
    else:
        raise KeyError(kind)
    return struct.pack("<IQ", cid, len(c)) + c


def chunks_of(e, meta_text=None):
    out = []
    if e.meta is not None:
        out.append(("meta", meta_text))
    out.append((e.vocab.kind, e.vocab))
    out.append((e.storage.kind, e.storage))
    if e.norms is not None:
        out.append(("norms", e.norms))
    return out


def write_fifu(chunk_list, announce=None):
    """
    chunk_list: list of (kind, obj). Returns (bytes, list of (start, end)).
    announce: number of chunks that the header lists (all by default).
    """
    listed = chunk_list[:announce]
    out = b"FiFu" + struct.pack("<II", 0, len(listed))
    out += b"".join(struct.pack("<I", IDS[k]) for k, _ in listed)
    spans = []
    parts, pos = [out], len(out)
    for k, o in chunk_list:
        b = chunk(k, o, pos)
        parts.append(b)
        spans.append((pos, pos + len(b)))
        pos += len(b)
    return b"".join(parts), spans


class Malformed(Exception):
    pass


class _Rd:
    def __init__(self, data, pos, end):
        self.d, self.p, self.e = data, pos, end

    def take(self, n, what):
        if self.p + n > self.e:
            raise Malformed(f"{what}: {n} bytes needed at {self.p}, chunk ends at {self.e}")
        b = self.d[self.p:self.p + n]
        self.p += n
        return b

    def un(self, fmt, what):
        return struct.unpack(fmt, self.take(struct.calcsize(fmt), what))

    def arr(self, dt, shape, what):
        n = int(np.prod(shape, dtype=object)) if len(shape) else 1
        if dt == "<f4" and self.p % 4:
            raise Malformed(f"{what}: float array at unaligned position {self.p}")
        b = self.take(n * np.dtype(dt).itemsize, what)
        return np.frombuffer(b, dtype=dt).reshape(shape)

    def pad(self, what):
        # the number of padding bytes other readers skip
        b = self.take(pad4(self.p), what)
        return b

    def items(self, n, what, with_idx=False):
        out, idx = [], {}
        for i in range(n):
            ln, = self.un("<I", f"{what} {i} length")
            b = self.take(ln, f"{what} {i}")
            try:
                w = b.decode("utf-8")
            except UnicodeDecodeError as e:
                raise Malformed(f"{what} {i} is not UTF-8: {e}")
            out.append(w)
            if with_idx:
                idx[w], = self.un("<Q", f"{what} {i} index")
        return (out, idx) if with_idx else out


def parse_fifu(data, announced=True):
    """
    Strict parser. Returns list of (kind, obj); obj for meta is the text.

    With announced=False chunks that the header does not list are accepted at
    the end of the file (older finalfusion versions do not list the norms).
    """
    r = _Rd(data, 0, len(data))
    if r.take(4, "magic") != b"FiFu":
        raise Malformed("magic")
    ver, n = r.un("<II", "header")
    if ver != 0:
        raise Malformed(f"version {ver}")
    ids = list(r.un(f"<{n}I", "chunk ids"))
    out = []
    k = -1
    while k + 1 < len(ids) or (not announced and r.p < len(data)):
        k += 1
        want = ids[k] if k < len(ids) else None
        cid, ln = r.un("<IQ", f"header of chunk {k}")
        if want is not None and cid != want:
            raise Malformed(f"header announces chunk {want} at {k}, found {cid}")
        if cid not in NAMES:
            raise Malformed(f"unknown chunk id {cid}")
        kind = NAMES[cid]
        if r.p + ln > len(data):
            raise Malformed(f"chunk {kind} length {ln} exceeds file")
        c = _Rd(data, r.p, r.p + ln)
        if kind == "meta":
            try:
                obj = c.take(ln, "metadata").decode("utf-8")
            except UnicodeDecodeError as e:
                raise Malformed(f"metadata is not UTF-8: {e}")
        elif kind == "simple":
            n_w, = c.un("<Q", "n words")
            obj = V("simple", _uniq(c.items(n_w, "word")))
        elif kind in ("ff", "ft"):
            n_w, a, b, bk = c.un("<QIII", "vocab header")
            obj = V(kind, _uniq(c.items(n_w, "word")), a, b, bk)
        elif kind == "explicit":
            n_w, n_g, a, b = c.un("<QQII", "vocab header")
            ws = _uniq(c.items(n_w, "word"))
            gl, gi = c.items(n_g, "ngram", True)
            obj = V("explicit", ws, a, b, None, _uniq(gl), gi)
        elif kind == "nd":
            rows, cols, ty = c.un("<QII", "array header")
            if ty != 10:
                raise Malformed(f"array type {ty}")
            c.pad("array padding")
            obj = S("nd", c.arr("<f4", (rows, cols), "array"))
        elif kind == "norms":
            n_n, ty = c.un("<QI", "norms header")
            if ty != 10:
                raise Malformed(f"norms type {ty}")
            c.pad("norms padding")
            obj = c.arr("<f4", (n_n,), "norms")
        else:
            pr, no, ql, rl, nc, ne, t1, t2 = c.un("<IIIIIQII", "quantized header")
            if (t1, t2) != (1, 10):
                raise Malformed(f"quantized types {t1} {t2}")
            if pr > 1 or no > 1:
                raise Malformed("quantized flags")
            if ql == 0 or rl % ql:
                raise Malformed("quantized lengths")
            c.pad("quantized padding")
            proj = c.arr("<f4", (rl, rl), "projection") if pr else None
            q = c.arr("<f4", (ql, nc, rl // ql), "quantizers")
            nm = c.arr("<f4", (ne,), "quantized norms") if no else None
            codes = c.arr("u1", (ne, ql), "codes")
            obj = S("pq", None, q, proj, nm, codes)
        if c.p != c.e:
            raise Malformed(f"chunk {kind} declares {ln} bytes, {c.p - r.p} are content")
        r.p = c.e
        out.append((kind, obj))
    if r.p != len(data):
        raise Malformed(f"{len(data) - r.p} bytes after the last announced chunk")
    return out


def _uniq(ws):
    if len(set(ws)) != len(ws):
        raise Malformed("duplicate items")
    return ws


# ---------------------------------------------------------------- word2vec
def write_w2v(words, matrix, newline=True):
    out = [f"{len(words)} {matrix.shape[1]}\n".encode()]
    for w, row in zip(words, matrix):
        b = w if isinstance(w, bytes) else w.encode("utf-8")
        out.append(b + b" " + _le(row, "<f4") + (b"\n" if newline else b""))
    return b"".join(out)


def _shape_line(b):
    """'rows cols' in plain decimal notation."""
    if not re.fullmatch(rb"[0-9]+ [0-9]+", b):
        raise Malformed(f"first line {b!r}")
    x, y = b.split(b" ")
    return int(x), int(y)


def parse_w2v(data):
    """Strict parser of the documented layout."""
    nl = data.index(b"\n")
    rows, cols = _shape_line(data[:nl])
    p = nl + 1
    words, mat = [], np.zeros((rows, cols), np.float32)
    for i in range(rows):
        sp = data.index(b" ", p)
        words.append(data[p:sp].decode("utf-8"))
        p = sp + 1
        b = data[p:p + 4 * cols]
        if len(b) != 4 * cols:
            raise Malformed("short row")
        mat[i] = np.frombuffer(b, "<f4")
        p += 4 * cols
        if data[p:p + 1] != b"\n":
            raise Malformed(f"no newline after row {i}")
        p += 1
    if p != len(data):
        raise Malformed("trailing data")
    return words, mat


# ---------------------------------------------------------------- text
def write_text(words, matrix, dims, sep=" ", fmt=repr, end="\n", last_newline=True):
    lines = []
    if dims:
        lines.append(f"{len(words)} {matrix.shape[1]}".encode())
    for w, row in zip(words, matrix):
        b = w if isinstance(w, bytes) else w.encode("utf-8")
        comps = " ".join(fmt(float(x)) for x in row).encode()
        lines.append(b + sep.encode() + comps)
    out = end.encode().join(lines)
    return out + (end.encode() if last_newline else b"")


def parse_text(data, dims, sep=" "):
    txt = data.decode("utf-8")
    if not txt.endswith("\n"):
        raise Malformed("no final newline")
    lines = txt[:-1].split("\n")
    shape = None
    if dims:
        shape = _shape_line(lines[0].encode())
        lines = lines[1:]
    words, rows = [], []
    for ln in lines:
        w, rest = ln.split(sep, 1)
        words.append(w)
        rows.append([float(x) for x in rest.split(" ")])
    mat = np.array(rows, dtype=np.float64)
    if dims and mat.shape != shape and len(rows):
        raise Malformed(f"shape {shape} announced, {mat.shape} found")
    return words, mat


# ---------------------------------------------------------------- fastText
LOSSES = ["HierarchicalSoftmax", "NegativeSampling", "Softmax"]
MODELS = ["CBOW", "SkipGram", "Supervised"]


class FT:
    """A fastText model: cfg (12 ints + double), words, counts, input matrix."""
    def __init__(self, cfg, words, counts, matrix, n_tokens=0):
        self.cfg, self.words, self.counts = cfg, words, counts
        self.matrix, self.n_tokens = matrix, n_tokens

    @property
    def buckets(self):
        return self.cfg[8]

    def metadata(self):
        c = list(self.cfg)
        keys = ['dims', 'window_size', 'epoch', 'min_count', 'ns',
                'word_ngrams', 'loss', 'model', 'buckets', 'min_n', 'max_n',
                'lr_update_rate', 'sampling_threshold']
        c[6] = LOSSES[c[6] - 1]
        c[7] = MODELS[c[7] - 1]
        return dict(zip(keys, c))

    def vocab(self, words=None):
        return V("ft", words or self.words, self.cfg[9], self.cfg[10], self.cfg[8])

    def means(self):
        """Unnormalized word vectors, float64."""
        v = self.vocab()
        m = self.matrix.astype(np.float64)
        out = np.zeros((len(self.words), m.shape[1]))
        for i, w in enumerate(self.words):
            out[i] = m[[i] + v.sub(w)].mean(0)
        return out


def write_ft(ft, output=True, magic=793712314, version=12, labels=0, prune=-1,
             quant=0, entry_types=None):
    out = [struct.pack("<ii", magic, version), struct.pack("<12id", *ft.cfg)]
    out.append(struct.pack("<iiiqq", len(ft.words), len(ft.words) - labels, labels,
                           ft.n_tokens, prune))
    for i, (w, c) in enumerate(zip(ft.words, ft.counts)):
        b = w if isinstance(w, bytes) else w.encode("utf-8")
        out.append(b + b"\0" + struct.pack("<qb", c, entry_types[i] if entry_types else 0))
    out.append(struct.pack("<?qq", quant, *ft.matrix.shape))
    out.append(_le(ft.matrix, "<f4"))
    if output:
        out.append(struct.pack("<?qq", 0, len(ft.words), ft.matrix.shape[1]))
        out.append(b"\0" * (4 * len(ft.words) * ft.matrix.shape[1]))
    return b"".join(out)


def parse_ft(data):
    """Parses up to and including the input matrix. Returns (FT, position)."""
    r = _Rd(data, 0, len(data))
    magic, ver = r.un("<ii", "fastText header")
    if (magic, ver) != (793712314, 12):
        raise Malformed("fastText magic/version")
    cfg = list(r.un("<12id", "cfg"))
    size, nwords, nlabels, ntok, prune = r.un("<iiiqq", "dictionary header")
    if nlabels or size != nwords or prune >= 0:
        raise Malformed("dictionary header")
    words, counts = [], []
    for i in range(size):
        e = data.index(b"\0", r.p)
        words.append(data[r.p:e].decode("utf-8"))
        r.p = e + 1
        c, t = r.un("<qb", "entry")
        if t != 0:
            raise Malformed("entry type")
        counts.append(c)
    q, m, n = r.un("<?qq", "matrix header")
    if q:
        raise Malformed("quantized")
    r_ = _Rd(data, r.p, len(data))
    b = r_.take(4 * m * n, "matrix")
    mat = np.frombuffer(b, "<f4").reshape(m, n)
    return FT(cfg, words, counts, mat, ntok), r_.p


def parse_ft_output(data, pos, ft):
    """The rest of a fastText model: the output matrix, with its header, up to the end of the file."""
    r = _Rd(data, pos, len(data))
    q, m, n = r.un("<?qq", "header of the output matrix")
    if q or n != ft.matrix.shape[1] or m < len(ft.words):
        raise Malformed(f"output matrix {m} x {n}, quantized {q}")
    b = r.take(4 * m * n, "output matrix")
    if r.p != len(data):
        raise Malformed(f"{len(data) - r.p} bytes after the output matrix")
    return np.frombuffer(b, "<f4").reshape(m, n)


# ---------------------------------------------------------------- self test
def selftest(fixtures):
    """Cross-check the reference with published vectors and foreign fixtures."""
    import os
    assert fifu_hash("") != 0
    # fnv1a64 published vectors, through the raw loop
    def fnv(data):
        h = 0xcbf29ce484222325
        for b in data:
            h = ((h ^ b) * 0x100000001b3) & M64
        return h
    assert fnv(b"") == 0xcbf29ce484222325 and fnv(b"a") == 0xaf63dc4c8601ec8c
    assert fnv(b"foobar") == 0x85944171f73967e8
    assert ngrams("ab", 2, 3) == ["<ab", "<a", "ab>", "ab", "b>"]
    n = 0
    for f in ("embeddings.fifu", "ff_buckets.fifu", "pq.fifu", "similarity.fifu",
              "simple_vocab.fifu", "pq-check.fifu"):
        p = os.path.join(fixtures, f)
        if os.path.exists(p):
            data = open(p, "rb").read()
            ch = parse_fifu(data, announced=False)
            n_ids = struct.unpack("<I", data[8:12])[0]
            assert write_fifu(ch, n_ids)[0] == data, f
            n += 1
    pq, chk = (os.path.join(fixtures, x) for x in ("pq.fifu", "pq-check.fifu"))
    if os.path.exists(pq) and os.path.exists(chk):
        a = dict(parse_fifu(open(pq, "rb").read()))
        b = dict(parse_fifu(open(chk, "rb").read()))
        if "pq" in a and "nd" in b:
            assert np.allclose(a["pq"].dense(), b["nd"].matrix, atol=0.3)
            n += 1
    return n
