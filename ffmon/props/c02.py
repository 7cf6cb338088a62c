"""C02: on-disk format, in both directions."""
import os

import numpy as np
import toml

from ffmon import gen, lib, ref
from ffmon.lib import Metadata, Norms, load_finalfusion


def same_model(t, kind, got, want, what):
    """Compare chunk objects parsed by the reference parser with the model, bit for bit."""
    if kind in ref.VOCABS:
        t.eq(got.words, want.words, what, "words")
        t.eq((got.min_n, got.max_n, got.buckets) if kind != "simple" else None,
             (want.min_n, want.max_n, want.buckets) if kind != "simple" else None, what, "config")
        if kind == "explicit":
            t.eq(got.ngram_list, list(want.ngram_list), what, "n-grams")
            t.eq(got.ngram_index, dict(want.ngram_index), what, "n-gram indices")
    elif kind == "nd":
        t.bits(got.matrix, want.matrix, what, "array")
    elif kind == "pq":
        for f in ("quantizers", "projection", "norms", "codes"):
            g, w = getattr(got, f), getattr(want, f)
            t.check((g is None) == (w is None), what, f, "presence")
            if w is not None:
                t.bits(g, w, what, f)
    elif kind == "norms":
        t.bits(got, want, what)
    elif kind == "meta":
        t.eq(gen.canon(lib.toml.loads(got)), gen.canon(want), what, "metadata")


def check_bytes(t, data, expected, what):
    try:
        chunks = ref.parse_fifu(data)
    except ref.Malformed as e:
        t.check(False, what, f"is not well-formed: {e}")
    t.eq([k for k, _ in chunks], [k for k, _ in expected], what, "chunks")
    for (k, g), (_, w) in zip(chunks, expected):
        same_model(t, k, g, w, f"{what} {k}")
    t.event("files parsed by the reference")
    t.event("chunks parsed by the reference", len(chunks))


def expected_chunks(e):
    c = ref.chunks_of(e, lib.toml_meta(e.meta) if e.meta is not None else None)
    return c


def written(t, r):
    e = gen.embeddings(r, finite=r.p(0.3))
    t.note(gen.describe(e))
    t.sample(**gen.describe(e))
    t.sig(e.vocab.kind, e.vocab.words, e.storage.kind, e.storage.shape, e.norms is None, repr(e.meta))
    p = t.path()
    lib.embeddings(e, r).write(p)
    check_bytes(t, open(p, "rb").read(), expected_chunks(e), "written file")


def written_single(t, r):
    e = gen.embeddings(r, finite=r.p(0.3), with_norms=True, with_meta=True)
    if r.p(0.4):
        e.vocab = gen.vocab(r, e.vocab.kind, big=True)
    t.note(gen.describe(e))
    t.sig("single", e.vocab.words, e.storage.kind, e.storage.shape)
    for k, obj, w in ((e.vocab.kind, lib.vocab(e.vocab), e.vocab), (e.storage.kind, lib.storage(e.storage, r), e.storage),
                      ("norms", Norms(gen.layout(r, e.norms)), e.norms),
                      ("meta", Metadata(e.meta), lib.toml_meta(e.meta))):
        p = t.path()
        obj.write(p)
        check_bytes(t, open(p, "rb").read(), [(k, w)], f"single {k}")


def written_offsets(t, r):
    """write_chunk into a file at any position: padding depends on the position."""
    e = gen.embeddings(r, finite=False, with_norms=True)
    obj = r.choice([(e.storage.kind, lib.storage(e.storage, r), e.storage), ("norms", Norms(e.norms.copy()), e.norms)])
    kind, o, w = obj
    t.note(kind)
    pre = r.randint(0, 9)
    t.sig("offset", kind, pre, e.storage.shape)
    # a metadata chunk of chosen length in front moves the array to every alignment
    text = "a = 1" + " " * pre + "#" * r.randint(0, 5)
    head, _ = ref.write_fifu([("meta", text), (kind, w)])
    first, spans = ref.write_fifu([("meta", text)])
    import struct
    hdr = b"FiFu" + struct.pack("<II", 0, 2) + struct.pack("<II", 5, ref.IDS[kind])
    body = hdr + first[spans[0][0]:]
    p = t.path()
    with open(p, "wb") as f:
        f.write(body)
        o.write_chunk(f)
    data = open(p, "rb").read()
    check_bytes(t, data, [("meta", lib.toml.loads(text)), (kind, w)], "chunk at offset")
    t.check(len(data) == len(head), "length of chunk at offset")


FOREIGN_META = [
    "", "# only a comment\n", "a = 1", "[common]\nkey = 'literal \\ string'\n\n[common.sub]\nx = [1, 2,\n 3]\n",
    "text = \"\"\"\nmulti\nline \u00fc\"\"\"\n", "date = 1979-05-27T07:32:00Z\n", "\"quoted key\" = \"\\u00e9\"\nu = 1_000\n",
    "f = 1e-3\ni = -17\nb = true\n", "[[arr]]\nx = 1\n[[arr]]\nx = 2\n", "\r\na = 1\r\nb = 'x'\r\n",
    "n = \"日本語 \U0001F44D\"\n", "e = []\n", "[empty]\n", "s = ''\nz = 0\nf = false\nl = [[], [1]]\n", "[a]\n[a.b]\nc = []\n",
    "k = " + "\"" + "x" * 70000 + "\"\n",
]


def foreign(t, r):
    """Files from an independent writer load to what they encode."""
    e = gen.embeddings(r, finite=r.p(0.4), with_meta=False)
    text = None
    if r.p(0.5):
        text = r.choice(FOREIGN_META) if r.p(0.6) else lib.toml.dumps(gen.meta(r))
        if r.p(0.4):
            text += "\n" + "#" * r.randint(0, 7)
        e.meta = lib.toml.loads(text)
    chunks = ref.chunks_of(e, text)
    announce = None
    if e.norms is not None and r.p(0.35):
        announce = len(chunks) - 1  # as older versions do
        t.event("norms not announced in header")
    data, _ = ref.write_fifu(chunks, announce)
    p = t.file(data)
    t.note(gen.describe(e), "meta", text)
    t.sig("foreign", e.vocab.kind, e.vocab.words, e.storage.kind, e.storage.shape, e.norms is None, text)
    for mmap in (False, True):
        got = load_finalfusion(p, mmap)
        lib.check_embeddings(t, got, e, f"foreign mmap={mmap}", meta="raw")
        t.event("foreign file loaded")
    t.event(f"foreign {e.vocab.kind}/{e.storage.kind}")


def foreign_vocab(t, r):
    """Vocabularies whose sizes no storage could match."""
    v = gen.vocab(r, r.choice(["ff", "ft", "explicit"]), big=True)
    t.note(v.kind, v.words[:8], v.min_n, v.max_n, v.buckets)
    t.sig("fv", v.kind, v.words, v.min_n, v.max_n, v.buckets)
    p = t.file(ref.write_fifu([(v.kind, v)])[0])
    for load in (lib.load_vocab, lib.VLOAD[v.kind]):
        lib.check_vocab(t, load(p), v, "foreign vocabulary")
    t.event("foreign vocabularies loaded")


def foreign_large(t, r):
    k = t.idx % 4
    if k == 3:
        v = gen.many_ngrams(r, 300, 70000)
        e = gen.E(v, gen.storage(r, v.upper(), "nd", False, 2), gen.norms(r, len(v.words), False))
    elif k == 0:
        e = gen.embeddings(r, r.choice(["simple", "ff"]), ws=gen.cheap_words(r, r.choice([3000, 66000]), odd=True), cols=3,
                           skind="nd", finite=False)
    elif k == 1:
        ws = gen.words(r, 4) + [gen.long_word(r, n) for n in (255, 256, 65535, 65536, 200000)]
        e = gen.embeddings(r, None, None, ws=list(dict.fromkeys(ws)), finite=False)
    else:
        e = gen.embeddings(r, "simple", "pq", ws=gen.cheap_words(r, 20000), finite=False)
    e.meta = {"long": "é" * r.choice([10, 70000, 700000])} if r.p(0.4) else None
    t.sig("fl", k, e.storage.shape)
    data, _ = ref.write_fifu(ref.chunks_of(e, None if e.meta is None else toml.dumps(e.meta)))
    p = t.file(data)
    for mmap in (False, True):
        lib.check_embeddings(t, load_finalfusion(p, mmap), e, f"foreign large mmap={mmap}")
        t.event("foreign file loaded")
    p2 = t.path()
    lib.embeddings(e).write(p2)
    check_bytes(t, open(p2, "rb").read(), expected_chunks(e), "written large file")


def blocks(t, r):
    """Parts whose sizes lie at and beside multiples of block sizes, in written and in foreign files."""
    n = gen.block_count(r)
    k = t.idx % 5
    if k < 2:
        c = r.choice([1, 1, 2, 3, 7, 64])
        s = gen.S("nd", gen.bits_matrix(r, r.choice([(n, 1), (1, n), (max(1, n // c), c)])))
        x, want = lib.storage(s), ("nd", s)
    elif k == 2:
        v = gen.bits_matrix(r, (n,))
        x, want = lib.Norms(v), ("norms", v)
    elif k == 3:
        s = gen.storage(r, n, "pq", False)
        x, want = lib.storage(s), ("pq", s)
    else:
        v = gen.vocab(r, r.choice(["simple", "ff", "ft"]), ws=gen.cheap_words(r, n, odd=True))
        x, want = lib.vocab(v), (v.kind, v)
    p = t.path()
    x.write(p)
    check_bytes(t, open(p, "rb").read(), [want], f"written {want[0]} of size {n}")
    q = t.file(ref.write_fifu([want])[0])
    if k == 2:
        lib.check_norms(t, lib.load_norms(q), want[1], f"foreign norms of size {n}")
    elif k == 4:
        lib.check_vocab(t, lib.load_vocab(q), want[1], f"foreign vocabulary of size {n}")
    else:
        for mmap in (False, True):
            lib.check_storage(t, lib.load_storage(q, mmap=mmap), want[1], f"foreign {want[0]} of size {n} mmap={mmap}")
    t.event("sizes beside multiples of block sizes")
    t.sig("blocks", k, n)


def empty(t, r):
    """Parts without contents, n-grams beyond 16 bit lengths."""
    if t.idx % 2:
        rows, cols = r.choice([(0, 0), (0, 3), (3, 0), (1, 0), (0, 1)])
        s = gen.S("nd", np.zeros((rows, cols), np.float32))
        p = t.path()
        lib.storage(s).write(p)
        check_bytes(t, open(p, "rb").read(), [("nd", s)], f"written storage of shape {rows} x {cols}")
        q = t.file(ref.write_fifu([("nd", s)])[0])
        for mmap in (False, True):
            for f in (p, q):
                t.eq(tuple(lib.load_ndarray(f, mmap=mmap).shape), (rows, cols), "shape of a storage without values")
        t.event("storages without values")
        t.sig("empty", rows, cols)
        return
    g = list(dict.fromkeys([gen.long_word(r, r.choice([255, 256, 65535, 65536, 70000])) for _ in range(2)] + ["a", "bc"]))
    v = gen.V("explicit", gen.words(r, 3), 1, r.choice([5, 70000]), None, g, {x: i for i, x in enumerate(g)})
    p = t.path()
    lib.vocab(v).write(p)
    check_bytes(t, open(p, "rb").read(), [("explicit", v)], "vocabulary with long n-grams")
    for f in (p, t.file(ref.write_fifu([("explicit", v)])[0])):
        lib.check_vocab(t, lib.load_vocab(f), v, "vocabulary with long n-grams")
    t.event("long n-grams in files")
    t.sig("long", v.words)


FIX = ["embeddings.fifu", "ff_buckets.fifu", "pq.fifu", "pq-check.fifu", "similarity.fifu", "simple_vocab.fifu"]


def fixtures(t, r):
    """Files made by the Rust implementation."""
    from ffmon import build
    f = os.path.join(build.REPO, "tests", "data", FIX[t.idx % len(FIX)])
    if not os.path.exists(f):
        t.event("fixture missing")
        return
    data = open(f, "rb").read()
    ch = dict(ref.parse_fifu(data, announced=False))
    vk = next(k for k in ch if k in ref.VOCABS)
    sk = next(k for k in ch if k in ref.STORAGES)
    e = ref.E(ch[vk], ch[sk], ch.get("norms"), lib.toml.loads(ch["meta"]) if "meta" in ch else None)
    t.sig("fixture", f)
    if e.vocab.upper() != e.storage.shape[0]:
        return
    for mmap in (False, True):
        got = load_finalfusion(f, mmap)
        lib.check_embeddings(t, got, e, f"fixture {os.path.basename(f)}", meta="raw")
        t.event("foreign file loaded")
        t.event("Rust-made fixture loaded")
        p = t.path()
        got.write(p)
        check_bytes(t, open(p, "rb").read(), expected_chunks(e), "rewritten fixture")


WORKLOADS = dict(
    written=(written, 6000, 240000),
    written_single=(written_single, 3000, 80000),
    written_offsets=(written_offsets, 3000, 60000),
    foreign=(foreign, 6000, 200000),
    foreign_vocab=(foreign_vocab, 1000, 20000),
    empty=(empty, 40, 400),
    foreign_large=(foreign_large, 24, 600),
    blocks=(blocks, 300, 6000),
    fixtures=(fixtures, 6, 6),
)
