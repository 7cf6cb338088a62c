"""C01: finalfusion write/load round trip."""
import os
import pathlib

import numpy as np

from ffmon import gen, lib
from ffmon.lib import Embeddings, Metadata, Norms, load_finalfusion


def dest(t, r, suffix=""):
    """An output path in one of the documented forms, sometimes holding older, longer data."""
    p = t.path(r.choice(["", ".fifu", "-ü日"]) + suffix)
    if r.p(0.3):
        with open(p, "wb") as f:
            f.write(b"\xab" * r.choice([1, 100, 50000]))
    return p


def as_arg(r, p):
    return r.choice([p, p, pathlib.Path(p), os.fsencode(p)])


def out_arg(r, p):
    if r.p(0.08):
        return os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    return as_arg(r, p)


def trip(t, r, e, emb, what):
    p = dest(t, r)
    emb.write(out_arg(r, p))
    t.event("Embeddings.write")
    data = open(p, "rb").read()
    for mmap in (False, True):
        got = load_finalfusion(as_arg(r, p), mmap=mmap) if mmap or r.p(0.8) else load_finalfusion(p)
        t.event("load_finalfusion mmap" if mmap else "load_finalfusion")
        lib.check_embeddings(t, got, e, f"{what} mmap={mmap}")
        p2 = dest(t, r)
        got.write(out_arg(r, p2))
        t.event("Embeddings.write of loaded")
        t.check(open(p2, "rb").read() == data, what, f"mmap={mmap}: rewriting the loaded embeddings gives another file")
        t.eq([c.chunk_identifier() for c in got.chunks()], [c.chunk_identifier() for c in emb.chunks()], "chunks")
    return data


def embeddings(t, r):
    e = gen.embeddings(r, finite=r.p(0.5))
    t.sig(e.vocab.kind, e.vocab.words, e.storage.kind, e.storage.shape, e.norms is None, repr(e.meta))
    t.sample(**gen.describe(e))
    t.note(gen.describe(e))
    emb = lib.embeddings(e, r)
    trip(t, r, e, emb, "round trip")
    t.event(f"vocab {e.vocab.kind}")
    t.event(f"storage {e.storage.kind}")


def combos(t, r):
    """Every vocab x storage x norms x metadata combination, by case number."""
    i = t.idx
    vk = ["simple", "ff", "ft", "explicit"][i % 4]
    sk = ["nd", "pq"][i // 4 % 2]
    e = gen.embeddings(r, vk, sk, finite=r.p(0.3), with_norms=bool(i // 8 % 2), with_meta=bool(i // 16 % 2))
    t.sig("combo", vk, sk, e.norms is None, e.meta is None, e.vocab.words)
    t.note(gen.describe(e))
    trip(t, r, e, lib.embeddings(e, r), "combo")
    t.event(f"combo {vk}/{sk}/norms={e.norms is not None}/meta={e.meta is not None}")


def single(t, r):
    """Each part on its own as a single-chunk file."""
    e = gen.embeddings(r, finite=r.p(0.4), with_norms=True, with_meta=True)
    t.note(gen.describe(e))
    t.sig("single", e.vocab.words, e.storage.shape, e.storage.kind)
    if r.p(0.4):
        e.vocab = gen.vocab(r, e.vocab.kind, big=True)
    v = lib.vocab(e.vocab)
    p = dest(t, r)
    v.write(out_arg(r, p))
    for load in (lib.load_vocab, lib.VLOAD[e.vocab.kind]):
        got = load(as_arg(r, p))
        lib.check_vocab(t, got, e.vocab, "single vocab")
        t.check(got == v and v == got, "single vocab equality")
        t.event("single vocab")
    s = lib.storage(e.storage, r)
    p = dest(t, r)
    s.write(out_arg(r, p))
    for load in (lib.load_storage, lib.SLOAD[e.storage.kind]):
        for mmap in (False, True):
            lib.check_storage(t, load(as_arg(r, p), mmap=mmap), e.storage, f"single storage mmap={mmap}")
            t.event("single storage")
    n = Norms(gen.layout(r, e.norms))
    p = dest(t, r)
    n.write(out_arg(r, p))
    lib.check_norms(t, lib.load_norms(as_arg(r, p)), e.norms, "single norms")
    t.event("single norms")
    m = Metadata(e.meta)
    p = dest(t, r)
    m.write(out_arg(r, p))
    lib.check_meta(t, lib.load_metadata(as_arg(r, p)), lib.toml_meta(e.meta), "single metadata")
    t.event("single metadata")


def large(t, r):
    """Sizes beyond buffers and small integer types."""
    k = t.idx % 6
    if k == 0:
        ws = gen.cheap_words(r, r.choice([4097, 20000, 66000]), odd=True)
        e = gen.embeddings(r, r.choice(["simple", "ft", "ff"]), "nd", ws=ws, cols=r.randint(1, 3 if len(ws) > 20000 else 12), finite=False)
    elif k == 1:
        ws = gen.words(r, 5)
        for n in (65535, 65536, 70000, 300000):
            ws.append(gen.long_word(r, n))
        ws = list(dict.fromkeys(ws))
        e = gen.embeddings(r, r.choice(["simple", "ff", "ft"]), None, ws=ws, finite=False)
    elif k == 2:
        e = gen.embeddings(r, None, "nd", cols=r.choice([300, 1000, 4099]), finite=False)
    elif k == 3:
        e = gen.embeddings(r, "simple", "pq", ws=gen.cheap_words(r, r.choice([300, 5000, 70000])), finite=False)
    elif k == 4:
        # a big n-gram table with shared indices
        ws = gen.cheap_words(r, 3000)
        g = 70000 if t.idx % 12 == 4 else 20000
        grams = gen.cheap_words(r, g)
        m = r.randint(1, g) if r.p(0.5) else g
        vals = list(range(m)) + [r.randrange(m) for _ in range(g - m)]
        r.shuffle(vals)
        v = gen.V("explicit", ws, 1, 9, None, grams, dict(zip(grams, vals)))
        e = gen.E(v, gen.storage(r, v.upper(), "nd", False, 3), gen.norms(r, len(ws), False), None)
    else:
        e = gen.embeddings(r, "ff", "nd", cols=r.choice([1, 5]), max_sub=1 << r.randint(12, 17), finite=False)
        e.meta = {"long": "é日" * r.choice([1000, 40000, 260000]), "many": {f"k{i}": i for i in range(500)}}
    t.sig("large", k, e.storage.shape, len(e.vocab.words))
    t.sample(kind=k, n_words=len(e.vocab.words), shape=list(e.storage.shape))
    t.note("large", k, e.storage.shape)
    trip(t, r, e, lib.embeddings(e, r if r.p(0.5) else None), "large")
    t.event("large round trip")


def pages(t, r):
    """Matrices that start or end at, or beside, a page boundary of the file, with and without values."""
    rows = r.choice([0, 0, 0, 1, 2, 5, 64])
    v = gen.V("simple", gen.cheap_words(r, rows))
    s = gen.storage(r, rows, "nd" if t.idx % 2 else "pq", False)
    page = r.choice([4096, 4096, 8192, 65536])

    def write(meta):
        e = gen.E(v, s, None, meta)
        p = t.path()
        lib.embeddings(e).write(p)
        return e, p
    size = os.path.getsize(write({"pad": ""})[1])
    # the matrix is the last chunk: its end is the end of the file
    tail = s.matrix.nbytes if s.kind == "nd" else s.codes.nbytes
    goal = page * (1 + size // page) + r.choice([0, 0, 0, -4, 4, -1, 1, r.randint(-40, 40)])
    if r.p(0.5):
        goal += tail
    if goal <= size:
        goal += page
    e, p = write({"pad": "x" * (goal - size)})
    end = os.path.getsize(p)
    t.note("pages", s.kind, s.shape, "file of", end)
    for mmap in (False, True):
        lib.check_embeddings(t, load_finalfusion(p, mmap=mmap), e, f"file of {end} bytes mmap={mmap}")
        lib.check_storage(t, lib.load_storage(p, mmap=mmap), s, f"storage of a file of {end} bytes mmap={mmap}")
    if end % page == 0 or (end - tail) % page == 0:
        t.event("matrices at page boundaries")
    t.event("matrices beside page boundaries")
    t.sig("pages", s.kind, s.shape, end)


def blocks(t, r):
    """Parts whose sizes lie at and beside multiples of block sizes."""
    n = gen.block_count(r)
    p = t.path()
    k = t.idx % 5
    if k < 2:
        c = r.choice([1, 1, 2, 3, 7, 64])
        s = gen.S("nd", gen.bits_matrix(r, r.choice([(n, 1), (1, n), (max(1, n // c), c)])))
        lib.storage(s, r if r.p(0.3) else None).write(p)
        for mmap in (False, True):
            lib.check_storage(t, lib.load_storage(p, mmap=mmap), s, f"storage of shape {s.shape} mmap={mmap}")
    elif k == 2:
        v = gen.bits_matrix(r, (n,))
        Norms(v).write(p)
        lib.check_norms(t, lib.load_norms(p), v, f"{n} norms")
    elif k == 3:
        s = gen.storage(r, n, "pq", False)
        lib.storage(s).write(p)
        for mmap in (False, True):
            lib.check_storage(t, lib.load_storage(p, mmap=mmap), s, f"quantized storage of shape {s.shape} mmap={mmap}")
    else:
        v = gen.vocab(r, r.choice(["simple", "ff", "ft"]), ws=gen.cheap_words(r, n, odd=True))
        lib.vocab(v).write(p)
        lib.check_vocab(t, lib.load_vocab(p), v, f"vocabulary of {n} words")
    t.event("sizes beside multiples of block sizes")
    t.sig("blocks", k, n)


def unwritable(t, r):
    """Words no UTF-8 file can hold: the write has to fail."""
    ws = gen.words(r, r.randint(1, 5))
    bad = r.choice(["\ud800", "x\udfffy", "\udc80", "a\ud83d"])
    ws.insert(r.randrange(len(ws) + 1), bad)
    e = gen.E(gen.V("simple", ws), gen.S("nd", gen.matrix(r, len(ws), 2, "normal")))
    emb = lib.embeddings(e)
    t.raises(Exception, lambda: emb.write(t.path()), "embeddings with the word", ascii(bad))
    t.raises(Exception, lambda: emb.vocab.write(t.path()), "vocabulary with the word", ascii(bad))
    t.event("words without UTF-8 refused")
    t.sig("unwritable", [ascii(w) for w in ws])


def assigned(t, r):
    """Parts assigned after construction or after loading are what is written."""
    e = gen.embeddings(r, finite=r.p(0.5))
    emb = lib.embeddings(e, r)
    p = t.path()
    emb.write(p)
    if r.p(0.7):
        emb = load_finalfusion(p, mmap=r.p(0.5))
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if k < 0.3:
            emb.norms = None
            e.norms = None
        elif k < 0.6:
            e.norms = gen.norms(r, len(e.vocab.words), False)
            emb.norms = Norms(gen.layout(r, e.norms))
        elif k < 0.75:
            emb.metadata = None
            e.meta = None
        else:
            e.meta = gen.meta(r)
            emb.metadata = Metadata(e.meta)
    if emb.metadata is not None and r.p(0.4):
        emb.metadata["added"] = "värde"
        e.meta = dict(e.meta, added="värde")
    t.note(gen.describe(e))
    t.sig("assigned", e.vocab.words, e.norms is None, repr(e.meta))
    trip(t, r, e, emb, "assigned")
    t.event("assigned parts written")


def edges(t, r):
    """Parts without contents, n-grams beyond 16 bit lengths."""
    p = t.path()
    if t.idx % 2:
        shape = r.choice([(0, 0), (0, 3), (3, 0), (1, 0), (0, 1)])
        lib.storage(gen.S("nd", np.zeros(shape, np.float32))).write(p)
        for mmap in (False, True):
            t.eq(tuple(lib.load_storage(p, mmap=mmap).shape), shape, "shape of a storage without values")
        t.sig("empty", shape)
    else:
        g = list(dict.fromkeys([gen.long_word(r, r.choice([255, 256, 65535, 65536, 70000])) for _ in range(2)] + ["a", "bc"]))
        v = gen.V("explicit", gen.words(r, 3), 1, r.choice([5, 70000]), None, g, {x: i for i, x in enumerate(g)})
        lib.vocab(v).write(p)
        lib.check_vocab(t, lib.load_vocab(p), v, "vocabulary with long n-grams")
        t.sig("long", v.words)
    t.event("edge cases")


WORKLOADS = dict(
    edges=(edges, 40, 400),
    pages=(pages, 800, 20000),
    embeddings=(embeddings, 6000, 200000),
    combos=(combos, 2560, 64000),
    single=(single, 3000, 80000),
    assigned=(assigned, 1500, 40000),
    large=(large, 60, 1200),
    blocks=(blocks, 300, 6000),
    unwritable=(unwritable, 60, 600),
)
