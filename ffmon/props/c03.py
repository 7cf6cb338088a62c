"""C03: every chunk can be loaded on its own."""
import contextlib
import os
import pathlib
import resource
import struct

import numpy as np

from ffmon import gen, lib, ref
from ffmon.lib import load_finalfusion

LOADERS = [
    ("load_vocab", lib.load_vocab, ref.VOCABS), ("load_simple_vocab", lib.load_simple_vocab, ("simple",)),
    ("load_finalfusion_bucket_vocab", lib.load_finalfusion_bucket_vocab, ("ff",)),
    ("load_fasttext_vocab", lib.load_fasttext_vocab, ("ft",)),
    ("load_explicit_vocab", lib.load_explicit_vocab, ("explicit",)),
    ("load_storage", lib.load_storage, ref.STORAGES), ("load_ndarray", lib.load_ndarray, ("nd",)),
    ("load_quantized_array", lib.load_quantized_array, ("pq",)),
    ("load_norms", lib.load_norms, ("norms",)), ("load_metadata", lib.load_metadata, ("meta",)),
]
METAS = ["", "a = 1", "# x\n[t]\nk = 'v'\n", "ü = 'é日'".replace("ü", '"ü"'), "l = [1, 2]\n" * 1 + "#" * 13]


def check_part(t, kind, got, obj, what):
    if kind in ref.VOCABS:
        lib.check_vocab(t, got, obj, what)
    elif kind in ref.STORAGES:
        lib.check_storage(t, got, obj, what)
    elif kind == "norms":
        lib.check_norms(t, got, obj, what)
    else:
        lib.check_meta(t, got, lib.toml.loads(obj), what)


def probe(t, r, p, chunks, full=None):
    order = list(LOADERS)
    r.shuffle(order)
    for name, load, kinds in order:
        want = next(((k, o) for k, o in chunks if k in kinds), None)
        for mmap in ((False, True) if kinds[0] in ref.STORAGES else (None,)):
            arg = r.choice([p, pathlib.Path(p), os.fsencode(p)])
            if not mmap and r.p(0.05):
                arg = os.open(p, os.O_RDONLY)
            kw = {} if mmap is None else dict(mmap=mmap)
            t.note(name, kw, [k for k, _ in chunks])
            if want is None:
                t.raises(ValueError, lambda: load(arg, **kw), name, "without such a chunk")
                t.event("absent chunk reported")
            else:
                got = load(arg, **kw)
                check_part(t, want[0], got, want[1], f"{name} {kw}")
                t.event(name + (" mmap" if mmap else ""))
                pre = next(i for i, (k, _) in enumerate(chunks) if k in kinds)
                for k, _ in chunks[:pre]:
                    t.event(f"skipped {k}")


def rand_chunk(r, kind):
    if kind in ref.VOCABS:
        return gen.vocab(r, kind, hi=12, max_sub=60, big=True)
    if kind in ref.STORAGES:
        return gen.storage(r, r.randint(0, 9), kind, finite=r.p(0.5))
    if kind == "norms":
        return gen.norms(r, r.randint(0, 9), finite=False)
    return r.choice(METAS)


def sequences(t, r):
    """Files with any sequence of chunks, from an independent writer."""
    n = r.choice([1, 1, 2, 3, 3, 4, 5, 7])
    kinds = [r.choice(list(ref.IDS)) for _ in range(n)]
    if r.p(0.3):
        kinds = r.sample(list(ref.IDS), len(ref.IDS))
    chunks = [(k, rand_chunk(r, k)) for k in kinds]
    data, _ = ref.write_fifu(chunks, r.choice([None, None, max(1, len(chunks) - 1)]))
    t.sig(tuple(kinds), len(data))
    t.sample(chunks=kinds, bytes=len(data))
    probe(t, r, t.file(data), chunks)
    t.event("files probed")


def library_files(t, r):
    """Files written by the library."""
    e = gen.embeddings(r, finite=r.p(0.5))
    t.note(gen.describe(e))
    p = t.path()
    lib.embeddings(e, r).write(p)
    text = lib.toml.dumps(e.meta) if e.meta is not None else None
    chunks = ref.chunks_of(e, text)
    t.sig("lib", e.vocab.kind, e.storage.kind, e.norms is None, e.meta is None, e.vocab.words)
    probe(t, r, p, chunks)
    full = load_finalfusion(p)
    t.check(lib.load_vocab(p) == full.vocab, "load_vocab differs from the loaded embeddings' vocab")
    if e.norms is not None:
        t.bits(lib.load_norms(p), full.norms, "load_norms differs from the loaded embeddings' norms")
    if e.meta is not None:
        t.eq(lib.load_metadata(p), full.metadata, "load_metadata differs")
    t.event("library files probed")


def rewritten(t, r):
    """The same path with other content of the same size, at once and without a new file."""
    k = r.choice(list(ref.IDS))
    if k == "meta":
        versions = [f"k = {r.randint(100, 999)}" for _ in range(3)]
    elif k == "norms":
        n = r.randint(1, 9)
        versions = [gen.norms(r, n, finite=False) for _ in range(3)]
    elif k == "nd":
        n, d = r.randint(1, 9), r.choice([1, 3])
        versions = [gen.S("nd", gen.matrix(r, n, d)) for _ in range(3)]
    elif k == "pq":
        first = gen.storage(r, r.randint(1, 9), "pq")
        versions = [first] + [gen.S("pq", None, first.quantizers, first.projection, first.norms, r.np.permutation(first.codes))] * 2
    else:
        first = gen.vocab(r, k, hi=8, max_sub=30)
        versions = [first] + [gen.V(k, r.sample(first.words, len(first.words)), first.min_n, first.max_n, first.buckets, first.ngram_list,
                                    first.ngram_index) for _ in range(2)]
    p = t.path()
    loaders = [(name, load) for name, load, kinds in LOADERS if k in kinds]
    held = []
    for i, o in enumerate(versions):
        data, _ = ref.write_fifu([(k, o)])
        with open(p, "r+b" if i else "wb") as f:
            f.write(data)
            f.truncate()
        for name, load in loaders:
            kw = dict(mmap=True) if k in ref.STORAGES and r.p(0.3) and i == len(versions) - 1 else {}
            got = load(p, **kw)
            check_part(t, k, got, o, f"{name} after {i} changes of the file in place")
            held.append((name, got, o, i))
        t.event("files changed in place")
    for name, got, o, i in held:
        check_part(t, k, got, o, f"{name} of version {i} after later changes of the file")
    t.sig("rewritten", k, data)


def appended(t, r):
    """Library-written chunks of all kinds behind each other in one file."""
    kinds = r.sample(["simple", "ff", "ft", "explicit", "nd", "pq", "norms", "meta"], r.randint(2, 6))
    chunks = [(k, rand_chunk(r, k)) for k in kinds]
    p = t.path()
    with open(p, "wb") as f:
        f.write(b"FiFu" + struct.pack("<II", 0, len(kinds)) + b"".join(struct.pack("<I", ref.IDS[k]) for k in kinds))
        for i, (k, o) in enumerate(chunks):
            if k in ref.VOCABS:
                c = lib.vocab(o)
            elif k in ref.STORAGES:
                c = lib.storage(o, r)
            elif k == "norms":
                c = lib.Norms(gen.layout(r, o))
            else:
                c = lib.Metadata(lib.toml.loads(o))
            c.write_chunk(f)
    t.sig("appended", tuple(kinds))
    probe(t, r, p, chunks)
    t.event("appended chunks probed")


@contextlib.contextmanager
def roomy():
    """Lifts the worker's limit on address space: mapping a whole enormous file is as right as mapping a part of it."""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


def enormous_skip(t, r):
    """Chunks behind chunks of more than 2 and 4 GiB (sparse files)."""
    pre = r.choice([[], ["meta"], ["simple"], ["norms"]])
    huge = r.choice(["nd", "pq"])
    post = [k for k in ("norms", "meta", "simple", "explicit", "pq" if huge == "nd" else "nd") if k not in pre]
    post = r.sample(post, r.randint(2, len(post)))
    small = gen.S("nd", gen.matrix(r, 1, 4)) if huge == "nd" else \
        gen.S("pq", None, gen.matrix(r, 4, 3).reshape(4, 1, 3), None, None, np.zeros((1, 4), np.uint8))
    chunks = [(k, rand_chunk(r, k)) for k in pre] + [(huge, small)] + [(k, rand_chunk(r, k)) for k in post]
    data, spans = ref.write_fifu(chunks)
    rows = r.choice([1 << 31, 1 << 32, (1 << 32) + (1 << 31), 1 << 33, 1 << 35]) // (16 if huge == "nd" else 4) + r.randint(2, 999)
    extra = (rows - 1) * (16 if huge == "nd" else 4)
    a, b = spans[len(pre)]
    head = bytearray(data[:b])
    struct.pack_into("<Q", head, a + 4, b - a - 12 + extra)
    struct.pack_into("<Q", head, a + 12 + (0 if huge == "nd" else 20), rows)
    p = t.path()
    try:
        with open(p, "wb") as f:
            f.write(head)
            f.seek(extra, 1)
            f.write(data[b:])
    except OSError:
        t.event("sparse files not available")
        return
    t.note("sparse", [k for k, _ in chunks], rows)
    for i, (k, o) in enumerate(chunks):
        if i == len(pre):
            if extra >= 1 << 33:
                continue  # more address space than a worker may have
            s = lib.SLOAD[k](p, mmap=True)
            t.eq(tuple(s.shape), (rows, small.shape[1]), "shape of an enormous storage")
            continue
        for name, load, kinds in LOADERS:
            if kinds == (k,):
                check_part(t, k, load(p), o, f"{name} with {i} chunks before, {extra} bytes skipped")
                if k in ref.STORAGES:
                    with roomy():
                        check_part(t, k, load(p, mmap=True), o, f"{name} memory-mapped behind {extra} bytes")
                    t.event("storages mapped behind enormous chunks")
                t.event("chunks loaded around enormous ones")
    t.raises(ValueError, lambda: lib.load_fasttext_vocab(p), "absent chunk in an enormous file")
    t.sig("sparse", tuple(k for k, _ in chunks), rows)


def far(t, r, kind, load):
    """A storage of the given kind that starts more than 2 or 4 GiB into the file. Returns (path, model) or None."""
    o = rand_chunk(r, kind)
    size = r.choice([1 << 31, 1 << 32, 3 << 31]) + 4 * r.randint(1, 999)
    head = b"FiFu" + struct.pack("<IIIIIQ", 0, 2, ref.IDS["norms"], ref.IDS[kind], ref.IDS["norms"], size)
    p = t.path()
    try:
        with open(p, "wb") as f:
            f.write(head)
            f.seek(size, 1)
            f.write(ref.chunk(kind, o, len(head) + size))
    except OSError:
        t.event("sparse files not available")
        return
    t.note(kind, o.shape, "behind", size, "bytes")
    with roomy():
        _far(t, r, kind, load, p, o, size)
    t.event("storages far into a file")
    t.sig("far", kind, o.shape, size)


def _far(t, r, kind, load, p, o, size):
    for mmap in (False, True):
        got = load(p, mmap=mmap)
        lib.check_storage(t, got, o, f"storage behind {size} bytes, mmap={mmap}")
        if o.shape[0]:
            i = r.randrange(o.shape[0])
            part = gen.S("nd", o.matrix[i:]) if kind == "nd" else \
                gen.S("pq", None, o.quantizers, o.projection, None if o.norms is None else o.norms[i:], o.codes[i:])
            lib.check_storage(t, got[i:], part, "slice of a storage far into the file")


def big_skip(t, r):
    """Skipping chunks larger than any buffer."""
    e = gen.embeddings(r, r.choice(["simple", "explicit", "ft"]), r.choice(["nd", "pq"]),
                       ws=gen.cheap_words(r, r.choice([5000, 30000])), with_norms=True, with_meta=True, finite=False)
    p = t.path()
    lib.embeddings(e).write(p)
    t.sig("big", e.vocab.kind, e.storage.kind, len(e.vocab.words))
    t.bits(lib.load_norms(p), e.norms, "norms behind large chunks")
    lib.check_storage(t, lib.load_storage(p, mmap=r.p(0.5)), e.storage, "storage behind large vocab")
    t.event("big chunks skipped", 2)


WORKLOADS = dict(
    rewritten=(rewritten, 800, 20000),
    sequences=(sequences, 6000, 240000),
    library_files=(library_files, 3000, 80000),
    appended=(appended, 3000, 80000),
    big_skip=(big_skip, 24, 400),
    enormous_skip=(enormous_skip, 16, 300),
)
