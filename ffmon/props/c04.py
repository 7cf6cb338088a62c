"""C04: truncated finalfusion files."""
from ffmon import gen, lib, ref
from ffmon.core import Violation
from ffmon.lib import load_finalfusion
from ffmon.props.c03 import LOADERS, check_part


def small(r, vk=None, sk=None):
    e = gen.embeddings(r, vk, sk, finite=r.p(0.5), hi=5, max_sub=8, maxlen=5)
    if e.vocab.kind == "explicit" and len(e.vocab.ngram_list) > 8:
        e.vocab.ngram_list = e.vocab.ngram_list[:8]
        e.vocab.ngram_index = {g: i for i, g in enumerate(e.vocab.ngram_list)}
        s = e.storage.kind
        e.storage = gen.storage(r, e.vocab.upper(), s, finite=r.p(0.5))
    if e.storage.kind == "pq" and e.storage.quantizers.nbytes > 400:
        e.storage = gen.pq(r, e.vocab.upper(), True, dims=r.choice([1, 2, 3, 4]), small=True)
    return e


def probe_cut(t, e, chunks, data, cut, norms_at, p, mmaps, which=None):
    with open(p, "wb") as f:
        f.write(data[:cut])
    n_raise = n_ok = 0
    for mmap in mmaps:
        try:
            got = load_finalfusion(p, mmap=mmap)
        except Exception:
            n_raise += 1
        else:
            n_ok += 1
            what = f"file of {len(data)} bytes cut at {cut}, load_finalfusion mmap={mmap}:"
            lib.check_vocab(t, got.vocab, e.vocab, what + " vocab")
            lib.check_storage(t, got.storage, e.storage, what + " storage")
            lib.check_meta(t, got.metadata, lib.toml_meta(e.meta) if e.meta is not None else None, what + " metadata")
            if not (got.norms is None and cut <= norms_at):
                lib.check_norms(t, got.norms, e.norms, what + " norms")
    for name, load, kinds in (LOADERS if which is None else which):
        want = next(((k, o) for k, o in chunks if k in kinds), None)
        if want is None:
            continue
        for mmap in (mmaps if kinds[0] in ref.STORAGES else (None,)):
            kw = {} if mmap is None else dict(mmap=mmap)
            try:
                got = load(p, **kw)
            except Exception:
                n_raise += 1
            else:
                n_ok += 1
                check_part(t, want[0], got, want[1], f"file of {len(data)} bytes cut at {cut}, {name} {kw}:")
    t.event("loads of truncated files refused", n_raise)
    t.event("loads of truncated files giving complete parts", n_ok)


def setup_file(t, r, e):
    p = t.path()
    if r.p(0.8):
        lib.embeddings(e, r).write(p)
        text = lib.toml.dumps(e.meta) if e.meta is not None else None
    else:
        text = lib.toml.dumps(e.meta) if e.meta is not None else None
        data, _ = ref.write_fifu(ref.chunks_of(e, text))
        open(p, "wb").write(data)
    data = open(p, "rb").read()
    chunks = ref.chunks_of(e, text)
    spans = []
    # chunk positions of the written file
    import struct
    n = struct.unpack("<I", data[8:12])[0]
    pos = 12 + 4 * n
    while pos < len(data):
        ln = struct.unpack("<Q", data[pos + 4:pos + 12])[0]
        spans.append((pos, pos + 12 + ln))
        pos += 12 + ln
    norms_at = spans[-1][0] if e.norms is not None and spans else len(data) + 1
    return p, data, chunks, spans, norms_at


def every_byte(t, r):
    """All prefixes of a small file, all loaders."""
    i = t.idx
    e = small(r, ["simple", "ff", "ft", "explicit"][i % 4], ["nd", "pq"][i // 4 % 2])
    p, data, chunks, spans, norms_at = setup_file(t, r, e)
    t.note(gen.describe(e))
    t.sample(bytes=len(data), chunks=[k for k, _ in chunks], spans=spans)
    if len(data) > 3000:
        cuts = sorted(r.sample(range(len(data)), 1500))
    else:
        cuts = range(len(data))
    for cut in cuts:
        probe_cut(t, e, chunks, data, cut, norms_at, p, (False, True) if cut % 2 or cut > len(data) - 40 else (False,))
        t.event("cut positions")
        t.sig(i, cut)
    t.event(f"truncated {e.vocab.kind}/{e.storage.kind}")


def boundaries(t, r):
    """Larger files, cuts around structure boundaries and at random."""
    k = t.idx % 4
    if k == 0:
        e = gen.embeddings(r, "simple", "nd", ws=gen.cheap_words(r, r.choice([500, 3000])), cols=r.choice([3, 50]))
    elif k == 1:
        e = gen.embeddings(r, "explicit", "nd", max_sub=2000, hi=60)
    elif k == 2:
        e = gen.embeddings(r, None, "pq", ws=gen.cheap_words(r, r.choice([100, 2000])))
    else:
        ws = gen.words(r, 6) + [gen.long_word(r, n) for n in (300, 9000, 70000)]
        e = gen.embeddings(r, r.choice(["simple", "ff", "ft"]), "nd", ws=list(dict.fromkeys(ws)), cols=4)
    p, data, chunks, spans, norms_at = setup_file(t, r, e)
    cuts = {0, 4, 8, 11, 12, len(data) - 1, len(data) - 4, len(data) - 5}
    for a, b in spans:
        for d in (-5, -4, -1, 0, 1, 4, 11, 12, 13, 20, 27, 28, 29, 32, 36):
            cuts.add(a + d)
        cuts |= {b - 1, b - 2, b - 4, b - 8, b - 9, b - 12}
    for b in (4096, 8192, 65536):
        cuts |= {c for m in range(1, 4) for c in (b * m - 1, b * m, b * m + 1)}
    cuts |= {r.randrange(len(data)) for _ in range(60)}
    cuts = sorted(c for c in cuts if 0 <= c < len(data))
    # parts equal to the complete file are compared on two loaders, to save time
    some = [x for x in LOADERS if x[0] in ("load_vocab", "load_storage", "load_norms", "load_metadata")]
    for cut in cuts:
        probe_cut(t, e, chunks, data, cut, norms_at, p, (r.p(0.5),), r.sample(some, 2))
        t.event("cut positions")
        t.sig("b", t.idx, cut)
    t.event("large truncated files")


WORKLOADS = dict(every_byte=(every_byte, 120, 4000), boundaries=(boundaries, 32, 600))
