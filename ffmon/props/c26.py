"""C26: no file content crashes a loader, keeps it busy forever or yields an inconsistent object."""
import gc
import os
import resource
import struct

import numpy as np

from finalfusion.compat import (load_fasttext, load_text, load_text_dims, load_word2vec, write_text, write_text_dims,
                                write_word2vec)
from ffmon import gen, lib, ref
from ffmon.lib import load_finalfusion
from ffmon.props.c03 import LOADERS
from ffmon.props.c05 import make_ft

KW = dict(ascii_ws=False, empty=False, nul=False)
EDGE = [0, 1, 2, 3, 4, 7, 8, 10, 11, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 2**15, 2**16 - 1, 2**16, 2**24, 2**31 - 1, 2**31,
        2**32 - 1, 2**32, 2**33, 2**40, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 4]
MEMORY = 1 << 30


def vm_size():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[0]) * resource.getpagesize()


def mutate(r, data, other, frozen=(0, 0)):
    """1 to 4 random changes; bytes of the metadata text are left alone."""
    b = bytearray(data)
    kinds = []
    for _ in range(r.choice([1, 1, 1, 2, 3, 4])):
        k = r.choice(["bit", "byte", "u32", "u32", "u64", "small", "cut", "extend", "delete", "insert", "dup", "splice", "swap", "text"])
        kinds.append(k)
        if not b:
            b = bytearray(r.randbytes(r.randint(1, 40)))
            continue
        i = r.randrange(len(b))
        if r.p(0.6):
            i = r.randrange(min(len(b), 64)) if r.p(0.5) else i - i % 4
        if frozen[0] <= i < frozen[1]:
            i = frozen[1] if r.p(0.5) else max(0, frozen[0] - 12)
        i = min(i, len(b) - 1)
        if k == "bit":
            b[i] ^= 1 << r.randrange(8)
        elif k == "byte":
            b[i] = r.choice([0, 255, 128, 10, 32, r.randrange(256)])
        elif k in ("u32", "u64"):
            f = "<I" if k == "u32" else "<Q"
            n = struct.calcsize(f)
            if i + n <= len(b):
                old, = struct.unpack_from(f, b, i)
                v = r.choice([r.choice(EDGE), old + 1, old - 1, old * 2, old // 2, r.getrandbits(8 * n)])
                struct.pack_into(f, b, i, v % (1 << 8 * n))
        elif k == "small":
            b[i] = (b[i] + r.choice([-1, 1, 2, 4, -4])) % 256
        elif k == "cut":
            del b[i:]
        elif k == "extend":
            b += r.choice([b"\0" * r.randint(1, 40), r.randbytes(r.randint(1, 40)), b"\n", bytes(b[i:]), bytes(b)])
        elif k == "delete":
            del b[i:i + r.choice([1, 2, 4, 8, r.randint(1, 40)])]
        elif k == "insert":
            b[i:i] = r.choice([b"\0", b"\n", b" ", b"\0" * 4, r.randbytes(r.randint(1, 9))])
        elif k == "dup":
            j = min(len(b), i + r.choice([1, 4, 8, 12, r.randint(1, 60)]))
            b[i:i] = b[i:j]
        elif k == "splice":
            j = r.randrange(len(other) + 1)
            b = b[:i] + other[j:]
        elif k == "swap":
            j = r.randrange(len(b))
            n = r.choice([1, 4, 8, 12])
            i, j = min(i, j), max(i, j)
            if i + n <= j and j + n <= len(b):
                b[i:i + n], b[j:j + n] = b[j:j + n], b[i:i + n]
        else:
            b[i:i + 1] = r.choice([b"nan", b"inf", b"-", b"1e999", b"1e-999", b" \n", b"\n\n", b"\r\n", b"\xc2\xa0", b"\xff", b"0x1p3", b"1_0"])
    return bytes(b), kinds


def vocab_ok(t, v, what, r):
    words = list(v.words)
    t.check(all(type(w) is str for w in words), what, "words are not strings")
    t.check(len(set(words)) == len(words) == len(v), what, "words are not distinct or their number differs from len()")
    t.check(dict(v.word_index) == {w: i for i, w in enumerate(words)}, what, "word index is not the position")
    ub = v.upper_bound
    t.check(ub >= len(words), what, "upper bound", ub, "below the number of words")
    for w in words[:20]:
        t.check(w in v and v.idx(w) == words.index(w), what, "word is not found at its position")
    if hasattr(v, "subword_indexer"):
        for q in [w + "x" for w in words[:3]] + [gen.word(r) for _ in range(3)]:
            if v.max_n - v.min_n > 50 or q in v.word_index:
                continue
            i = v.idx(q)
            t.check(i is None or (type(i) is list and i and all(len(words) <= j < ub for j in i)), what, "indices", i, "of", q)
        if hasattr(v.subword_indexer, "ngram_index"):
            t.check(all(0 <= j < v.subword_indexer.upper_bound for j in dict(v.subword_indexer.ngram_index).values()), what,
                    "n-gram index out of range")
    t.event("vocabularies judged")


def storage_ok(t, s, what):
    n, d = s.shape
    t.check(type(n) is int or isinstance(n, np.integer), what, "shape")
    codes_ok = True
    for i in sorted(j for j in {0, 1, n // 2, n - 1, -1, -n} if -n <= j < n):
        try:
            row = np.asarray(s[i])
        except MemoryError:
            # quantizers without centroids may claim any number of components, of which there are none
            t.check(type(s) is lib.QuantizedArray and d >= 2**24, what, "row", i, "of", n, "does not fit into memory")
            codes_ok = False
            continue
        except IndexError:
            # codes without a centroid are only found when they are looked up
            t.check(type(s) is lib.QuantizedArray, what, "row", i, "of", n, "is not there")
            codes_ok = False
            continue
        t.check(row.shape == (d,) and row.dtype == np.float32, what, "row", i, "has", row.shape, row.dtype)
    for i in (n, -n - 1):
        t.raises(IndexError, lambda: s[i], what, "row", i, "of", n)
    if codes_ok and n * max(d, 1) < 100000:
        try:
            a = np.asarray(s)
            t.check(a.shape == (n, d), what, "array", a.shape, "of", (n, d))
        except IndexError:
            t.check(type(s) is lib.QuantizedArray, what, "conversion")
    t.event("storages judged")


def emb_ok(t, e, what, r):
    vocab_ok(t, e.vocab, what, r)
    storage_ok(t, e.storage, what)
    n, d = e.storage.shape
    t.check(n == e.vocab.upper_bound, what, "has", n, "rows for", e.vocab.upper_bound, "indices")
    if e.norms is not None:
        t.check(len(e.norms) == len(e.vocab) and np.asarray(e.norms).shape == (len(e.vocab),), what, "has", len(e.norms), "norms for",
                len(e.vocab), "words")
    for w in list(e.vocab.words)[:5] + ["oov " + gen.word(r)]:
        if hasattr(e.vocab, "max_n") and e.vocab.max_n - e.vocab.min_n > 50 and w not in e.vocab.word_index:
            continue
        try:
            x = e.embedding(w)
        except (IndexError, MemoryError) as ex:
            t.check(type(e.storage) is lib.QuantizedArray and (d >= 2**24 or not isinstance(ex, MemoryError)), what, "lookup of", w)
            continue
        t.check(x is None or np.asarray(x).shape == (d,), what, "vector of", w)
    t.event("embeddings judged")


def rewritten(t, obj, load, what):
    """The loaded object can be written, and that file loaded and written again, without change."""
    p, q = t.path(), t.path()
    if hasattr(obj, "metadata"):
        obj.metadata = None
    obj.write(p)
    again = load(p)
    if hasattr(again, "vocab"):
        t.check(again.vocab == obj.vocab, what, "vocabulary is not what is loaded after writing")
    again.write(q)
    a, b = open(p, "rb").read(), open(q, "rb").read()
    t.check(a == b, what, "is not what is loaded after writing")
    t.event("objects written and loaded")


def attempt(t, r, name, f, kw, data, what):
    p = t.file(data)
    t.note(name, kw, what, data[:120])
    try:
        res = f(p, **kw)
    except Exception as x:
        t.event("contents refused")
        t.sig(name, sorted(kw), type(x).__name__, str(x)[:30])
        os.unlink(p)
        return None
    except BaseException as x:
        t.check(False, name, kw, "ends the program:", type(x).__name__)
    t.event("contents accepted")
    t.sig(name, sorted(kw), "accepted", len(data), data[:64])
    w = f"{name}{kw} of {what}"
    if isinstance(res, lib.Embeddings):
        emb_ok(t, res, w, r)
        if res.storage.shape[0] * res.storage.shape[1] < 100000 and res.storage.shape[1] < 2**32:
            rewritten(t, res, load_finalfusion, w)
    elif isinstance(res, lib.Norms):
        t.check(np.asarray(res).ndim == 1 and np.asarray(res).dtype == np.float32, w, "norms")
        rewritten(t, res, lib.load_norms, w)
    elif isinstance(res, lib.Metadata):
        t.check(isinstance(res, dict), w, "metadata")
    elif hasattr(res, "word_index"):
        vocab_ok(t, res, w, r)
        rewritten(t, res, f, w)
    else:
        storage_ok(t, res, w)
        if res.shape[0] * max(1, res.shape[1]) < 100000 and res.shape[1] < 2**32:
            rewritten(t, res, lambda q: f(q), w)
    return res


def limited(fn):
    def run(t, r):
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        lim = vm_size() + MEMORY
        resource.setrlimit(resource.RLIMIT_AS, (lim if hard < 0 else min(lim, hard), hard))
        try:
            fn(t, r)
        finally:
            resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    return run


def fifu_loads():
    out = [("load_finalfusion", load_finalfusion, {}), ("load_finalfusion", load_finalfusion, dict(mmap=True))]
    for name, f, kinds in LOADERS:
        out.append((name, f, {}))
        if kinds[0] in ref.STORAGES:
            out.append((name, f, dict(mmap=True)))
    return out


@limited
def fifu(t, r):
    """Damaged finalfusion files with every loader."""
    e, o = (gen.embeddings(r, hi=8, max_sub=30, with_meta=r.p(0.15)) for _ in range(2))
    meta = "a = 1\n[b]\nc = 'd'\n"
    data, spans = ref.write_fifu(ref.chunks_of(e, meta))
    other, _ = ref.write_fifu(ref.chunks_of(o, meta))
    frozen = (spans[0][0] + 12, spans[0][1]) if e.meta is not None else (0, 0)
    for _ in range(6):
        d, kinds = mutate(r, data, other, frozen)
        for name, f, kw in r.sample(fifu_loads(), 3) + fifu_loads()[:2]:
            res = attempt(t, r, name, f, kw, d, ",".join(kinds))
            if res is not None and name == "load_finalfusion":
                try:
                    ch = dict(ref.parse_fifu(d))
                except (ref.Malformed, struct.error, MemoryError, ValueError):
                    continue
                v = next((ch[k] for k in ref.VOCABS if k in ch), None)
                s = next((ch[k] for k in ref.STORAGES if k in ch), None)
                t.check(v is not None and s is not None, name, "loads a file without vocabulary or storage")
                lib.check_vocab(t, res.vocab, v, "still well-formed file")
                if s.kind == "nd" or (s.codes.size == 0 or s.codes.max() < s.quantizers.shape[1]):
                    lib.check_storage(t, res.storage, s, "still well-formed file")
                lib.check_norms(t, res.norms, ch.get("norms"), "still well-formed file")
                t.event("still well-formed files compared")
    gc.collect()


COMPAT = [("load_word2vec", load_word2vec, {}), ("load_word2vec", load_word2vec, dict(lossy=True)),
          ("load_text", load_text, {}), ("load_text", load_text, dict(lossy=True)),
          ("load_text_dims", load_text_dims, {}), ("load_text_dims", load_text_dims, dict(lossy=True)),
          ("load_fasttext", load_fasttext, {}), ("load_fasttext", load_fasttext, dict(lossy=True))]


@limited
def compat(t, r):
    """Damaged files of the other formats."""
    def files():
        n, d = r.choice([1, 2, 3, 6]), r.choice([1, 2, 3, 5])
        emb = lib.Embeddings(lib.NdArray(gen.matrix(r, n, d)), lib.SimpleVocab(gen.words(r, n, **KW)))
        out = {}
        for k, w in (("load_word2vec", write_word2vec), ("load_text", write_text), ("load_text_dims", write_text_dims)):
            p = t.path()
            w(p, emb)
            out[k] = open(p, "rb").read()
        out["load_fasttext"] = ref.write_ft(make_ft(r, r.randint(1, 5), d, r.choice([1, 5, 20])), output=r.p(0.5))
        return out
    a, b = files(), files()
    for _ in range(3):
        for name, f, kw in COMPAT:
            k = name if r.p(0.9) else r.choice(list(a))
            d, kinds = mutate(r, a[k], b[r.choice([k, k, r.choice(list(b))])])
            attempt(t, r, name, f, kw, d, f"{k} {','.join(kinds)}")
    gc.collect()


@limited
def random_bytes(t, r):
    """Random contents behind a plausible beginning, for every loader."""
    w = r.choice(list(gen.cheap_words(r, 3)))
    start = [b"", b"", b"FiFu", b"FiFu" + struct.pack("<II", 0, r.choice([0, 1, 2])),
             b"FiFu" + struct.pack("<IIII", 0, 2, r.choice(list(ref.IDS.values())), r.choice(list(ref.IDS.values()))),
             struct.pack("<ii", 793712314, 12), b"3 2\n", b"%d %d\n" % (r.choice(EDGE), r.choice(EDGE)), w.encode() + b" 1 2\n",
             b"1 0\n", b"0 0\n", b"0 5\n", b"-1 3\n", b"1 -3\n", b"\xef\xbb\xbf1 1\na 1\n"]
    for _ in range(4):
        s = r.choice(start)
        if r.p(0.4):
            body = r.randbytes(r.choice([0, 1, 3, 20, 200]))
        else:
            body = b"".join(struct.pack(*x) for x in [(r.choice(["<I", "<Q"]), 0)] * 0 +
                            [r.choice([("<I", r.choice(EDGE) % 2**32), ("<Q", r.choice(EDGE)), ("<I", r.randrange(12)), ("<f", r.random())])
                             for _ in range(r.randint(0, 40))])
        if r.p(0.2):
            body = r.choice([b"\n", b" ", b"\0", b"a", b"1 ", b"\r", b"\xe2\x80\xa8"]) * r.choice([1, 10, 1000])
        for name, f, kw in r.sample(fifu_loads(), 4) + r.sample(COMPAT, 4):
            attempt(t, r, name, f, kw, s + body, "random bytes")
    p = t.path()
    os.mkdir(p)
    for name, f, kw in r.sample(fifu_loads() + COMPAT, 4):
        for q in (p, p + "/missing", os.devnull):
            t.raises(Exception, lambda: f(q, **kw), name, "of", q.replace(t.root, ""))
            t.event("other paths refused")



@limited
def counts(t, r):
    """Every count and length of an intact file, one at a time, replaced by an edge value; all loaders."""
    k = t.idx % 6
    e = gen.embeddings(r, ["simple", "ff", "ft", "explicit", "simple", "ft"][k], ["nd", "nd", "pq", "nd", "pq", "nd"][k], hi=5, max_sub=12,
                       with_meta=False)
    data, spans = ref.write_fifu(ref.chunks_of(e))
    fields = [(8, "<I")]
    for (a, b), (kind, o) in zip(spans, ref.chunks_of(e)):
        fields += [(a + 4, "<Q")]
        at = a + 12
        heads = dict(simple="Q", ff="QIII", ft="QIII", explicit="QQII", nd="QII", pq="IIIIIQII", norms="QI")[kind]
        for c in heads:
            fields.append((at, "<" + c))
            at += struct.calcsize("<" + c)
        if kind in ref.VOCABS and o.words:
            fields.append((at, "<I"))
    i, f = r.choice(fields)
    n = struct.calcsize(f)
    old, = struct.unpack_from(f, data, i)
    for v in r.sample(EDGE, 8) + [old + 1, old - 1]:
        b = bytearray(data)
        struct.pack_into(f, b, i, v % (1 << 8 * n))
        d = bytes(b)
        for name, g, kw in r.sample(fifu_loads(), 3) + fifu_loads()[:2]:
            attempt(t, r, name, g, kw, d, f"count {v} at {i} ({old})")
        t.event("counts replaced")


WORKLOADS = dict(fifu=(fifu, 1500, 60000), compat=(compat, 800, 30000), random_bytes=(random_bytes, 800, 30000), counts=(counts, 1000, 30000))
