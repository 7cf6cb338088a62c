"""C24: files that are not what they claim to be."""
import struct

import numpy as np
import toml

from finalfusion.compat import load_fasttext
from ffmon import gen, lib, ref
from ffmon.props import c16
from ffmon.ref import FT, IDS

VOC, STO = ("simple", "ff", "ft", "explicit"), ("nd", "pq")


def loaders():
    out = {"load_finalfusion": lib.load_finalfusion, "load_finalfusion mmap": lambda p: lib.load_finalfusion(p, mmap=True),
           "load_vocab": lib.load_vocab, "load_storage": lib.load_storage, "load_storage mmap": lambda p: lib.load_storage(p, mmap=True),
           "load_norms": lib.load_norms, "load_metadata": lib.load_metadata}
    for k, f in lib.VLOAD.items():
        out[f"load {k}"] = f
    for k, f in lib.SLOAD.items():
        out[f"load {k}"] = f
        out[f"load {k} mmap"] = lambda p, f=f: f(p, mmap=True)
    return out


def refused(t, fn, *msg):
    t.raises(Exception, fn, *msg)
    t.event("files refused")


def model(r):
    e = gen.embeddings(r, hi=8, max_sub=30)
    return e, ref.chunks_of(e, None if e.meta is None else toml.dumps(e.meta))


def accepted(t, data, e):
    p = t.file(data)
    lib.check_embeddings(t, lib.load_finalfusion(p), e, "intact file")
    t.event("intact files accepted")
    return p


def header(t, r):
    """Magic and version: every loader refuses."""
    e, cs = model(r)
    data, _ = ref.write_fifu(cs)
    accepted(t, data, e)
    muts = []
    for m in [b"FiFv", b"fifu", b"FIFU", b"\0\0\0\0", b"uFiF", b"FiF\0", b" iFu", b"\x7fELF", bytes(r.randrange(256) for _ in range(4))]:
        if m != b"FiFu":
            muts.append((f"magic {m!r}", m + data[4:]))
    i = r.randrange(4)
    m = bytearray(data)
    m[i] ^= 1 << r.randrange(8)
    muts.append((f"magic bit {i}", bytes(m)))
    for v in [1, 2, 2**31, 2**32 - 1, 256, 1 << r.randrange(32)]:
        muts.append((f"version {v}", data[:4] + struct.pack("<I", v) + data[8:]))
    muts.append(("magic missing", data[4:]))
    muts.append(("byte before the magic", b"\0" + data))
    t.note(gen.describe(e))
    for what, d in r.sample(muts, 6):
        p = t.file(d)
        for name, f in loaders().items():
            refused(t, lambda: f(p), what, name)
        t.event("wrong magic" if "magic" in what else "wrong version")
        t.sig(what, e.vocab.words)


def relabel(data, span, cid):
    d = bytearray(data)
    d[span[0]:span[0] + 4] = struct.pack("<I", cid)
    return bytes(d)


def identifiers(t, r):
    """Unknown chunk identifiers, and chunks labelled as something of another role."""
    e, cs = model(r)
    data, spans = ref.write_fifu(cs)
    t.note(gen.describe(e), [k for k, _ in cs])
    for i, (k, _) in enumerate(cs):
        for cid in [9, 10, 255, 2**16 + IDS[k], 2**32 - 1, IDS[k] << 8, IDS[k] << 24, IDS[k] | 0x100, IDS[k] | 0x80000000, r.randrange(9, 2**32)]:
            d = relabel(data, spans[i], cid)
            p = t.file(d)
            for mmap in (False, True):
                refused(t, lambda: lib.load_finalfusion(p, mmap=mmap), f"chunk {i} ({k}) with identifier {cid}")
            # a part at or after the unknown chunk cannot be found
            for j, (k2, _) in enumerate(cs):
                if j >= i:
                    f = part_loader(k2)
                    refused(t, lambda: f(p), f"{k2} at or after a chunk with identifier {cid}")
            t.event("unknown identifiers")
        # identifiers of chunks that do not belong here
        role = "v" if k in VOC else "s" if k in STO else k
        for other, cid in list(IDS.items()) + [("header", 0)]:
            orole = "v" if other in VOC else "s" if other in STO else other
            if orole == role or (role == "v" and other == "meta") or (i + 1 == len(cs) and False):
                continue
            if role == "meta" and orole == "v":
                # metadata text read as a vocabulary: the length fields are text
                continue
            d = relabel(data, spans[i], cid)
            p = t.file(d)
            for mmap in (False, True):
                refused(t, lambda: lib.load_finalfusion(p, mmap=mmap), f"chunk {i} ({k}) labelled {other}")
            t.event("wrong roles")
            t.sig("role", k, other, e.vocab.words, e.storage.shape)


def part_loader(k):
    return lib.VLOAD.get(k) or lib.SLOAD.get(k) or (lib.load_norms if k == "norms" else lib.load_metadata)


def orders(t, r):
    """Missing, repeated and reordered chunks. Headers announce the chunks that are there."""
    e, _ = model(r)
    if e.norms is None and r.p(0.7):
        e.norms = gen.norms(r, len(e.vocab.words))
    meta = ("meta", toml.dumps({"a": 1}))
    v, s = (e.vocab.kind, e.vocab), (e.storage.kind, e.storage)
    n = ("norms", gen.norms(r, len(e.vocab.words)) if e.norms is None else e.norms)
    bad = [[s, v], [s], [v], [n], [meta], [meta, v], [meta, s], [v, n], [s, n], [v, n, s], [n, v, s], [s, v, n], [v, meta, s], [v, s, meta],
           [v, v, s], [v, s, s], [v, s, v], [meta, meta, v, s], [meta, s, v], [v, meta, s, n], [v, s, meta, n], [meta, n, v, s],
           [v, s, s, n], [s, meta, v], [s, s], [n, s, v], [meta, v, n], [v, v], [meta, v, v, s, n], []]
    for cs in r.sample(bad, 10):
        p = t.file(ref.write_fifu(cs)[0])
        names = [k for k, _ in cs]
        t.note("chunks", names)
        for mmap in (False, True):
            refused(t, lambda: lib.load_finalfusion(p, mmap=mmap), "chunks", names)
        t.event("wrong orders")
        t.sig("order", names, e.storage.shape)
    for cs, e2 in ([[v, s], (None, None)], [[v, s, n], (n[1], None)], [[meta, v, s], (None, {"a": 1})], [[meta, v, s, n], (n[1], {"a": 1})]):
        accepted(t, ref.write_fifu(cs)[0], gen.E(e.vocab, e.storage, *e2))


def types(t, r):
    """Element type identifiers."""
    e, cs = model(r)
    if not any(k == "norms" for k, _ in cs):
        cs.append(("norms", gen.norms(r, len(e.vocab.words))))
    data, spans = ref.write_fifu(cs)
    others = [0, 1, 2, 3, 9, 11, 12, 255, 10 << 8, 10 << 24, 10 | 1 << 16, 2**32 - 1, r.randrange(12, 2**32)]
    t.note(gen.describe(e))
    for i, (k, _) in enumerate(cs):
        at = spans[i][0] + 12
        if k == "nd":
            pos = [(at + 12, 10)]
        elif k == "norms":
            pos = [(at + 8, 10)]
        elif k == "pq":
            pos = [(at + 28, 1), (at + 32, 10)]
        else:
            continue
        for q, right in pos:
            t.eq(struct.unpack("<I", data[q:q + 4])[0], right, "self check: type position")
            for x in [o for o in others + [10] if o != right]:
                d = bytearray(data)
                d[q:q + 4] = struct.pack("<I", x)
                p = t.file(bytes(d))
                names = ["load_finalfusion", "load_finalfusion mmap"]
                names += ["load_norms"] if k == "norms" else ["load_storage", "load_storage mmap", f"load {k}", f"load {k} mmap"]
                for name in names:
                    f = loaders()[name]
                    refused(t, lambda: f(p), f"{k} with element type {x} instead of {right}", name)
                t.event(f"wrong types {k}")
                t.sig("type", k, q - at, x, e.storage.shape)
    if e.storage.kind == "pq":
        i = [k for k, _ in cs].index("pq")
        at = spans[i][0] + 12
        for a, b in ((10, 1), (1, 1), (10, 10), (0, 0)):
            d = bytearray(data)
            d[at + 28:at + 36] = struct.pack("<II", a, b)
            p = t.file(bytes(d))
            for mmap in (False, True):
                refused(t, lambda: lib.load_finalfusion(p, mmap=mmap), "quantized types", a, b)


def fasttext(t, r):
    ws = gen.words(r, r.randint(1, 8), nul=False)
    ft = c16.model(r, ws=ws, buckets=r.choice([1, 5, 30]))
    data = ref.write_ft(ft)
    c16.check_loaded(t, load_fasttext(t.file(data)), ft, "intact model")
    t.event("intact models accepted")
    t.note("fastText", ft.cfg, ws)

    def bad(d, *msg):
        p = t.file(d)
        for lossy in (False, True):
            refused(t, lambda: load_fasttext(p, lossy), *msg)
        t.event("fastText files refused")

    for m in [0, 793712313, 793712315, -793712314, 2**31 - 1, 793712314 ^ (1 << r.randrange(31))]:
        bad(ref.write_ft(ft, magic=m), "magic", m)
    bad(data[:4][::-1] + data[4:], "magic in the other byte order")
    for v in [0, 1, 11, 13, -12, 12 << 8, 12 ^ (1 << r.randrange(31)), 2**31 - 1]:
        bad(ref.write_ft(ft, version=v), "version", v)
    t.event("fastText headers")
    for n in [1, 2, len(ws), 1000]:
        bad(ref.write_ft(ft, labels=n), "labels", n)
    for i in range(len(ws)):
        ty = [0] * len(ws)
        ty[i] = r.choice([1, 2, -1, 127])
        bad(ref.write_ft(ft, entry_types=ty), "label entry", i, ty[i])
    t.event("labels")
    for n in [0, 1, 5, 2**40, 2**63 - 1]:
        bad(ref.write_ft(ft, prune=n), "prune size", n)
    t.event("pruned vocabularies")
    # quantized flag, with and without what follows looking like a dense matrix
    bad(ref.write_ft(ft, quant=1), "quantized matrix")
    q = ref.write_ft(ft, quant=0, output=False)
    at = len(q) - ft.matrix.nbytes - 17
    bad(q[:at] + bytes([r.choice([1, 1, 2, 255])]) + q[at + 1:], "quantized flag")
    t.event("quantized models")
    # files of other formats
    e, cs = model(r)
    bad(ref.write_fifu(cs)[0], "finalfusion file")
    bad(ref.write_w2v(["a", "b"], np.ones((2, 3), np.float32)), "word2vec file")
    t.sig("ft", ws, ft.cfg)


def noise(t, r):
    """Arbitrary bytes and files of other formats through every finalfusion loader."""
    e, cs = model(r)
    ws = gen.words(r, 3, ascii_ws=False, empty=False, nul=False)
    m = gen.matrix(r, 3, 2, "normal")
    files = [b"", bytes(r.randrange(256) for _ in range(r.randint(1, 200))), ref.write_w2v(ws, m), ref.write_text(ws, m, True),
             ref.write_text(ws, m, False), b"\0" * 100, b"FiFu", b"FiFu" + b"\0" * 4,
             b"\xef\xbb\xbf" + ref.write_fifu(cs)[0]]
    for d in files:
        if d[:4] == b"FiFu" and len(d) > 8:
            continue
        p = t.file(d)
        for name, f in loaders().items():
            refused(t, lambda: f(p), "file", d[:20], name)
    t.event("foreign files refused")
    t.sig("noise", files[1])


WORKLOADS = dict(header=(header, 500, 12000), identifiers=(identifiers, 500, 12000), orders=(orders, 600, 15000), types=(types, 500, 12000),
                 fasttext=(fasttext, 300, 8000), noise=(noise, 100, 1500))
