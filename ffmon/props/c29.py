"""C29: chunks can be found, read and written one by one at any place of an open file."""
import os
import struct

from finalfusion.io import ChunkIdentifier, Header, find_chunk
from finalfusion.metadata import Metadata
from finalfusion.norms import Norms
from ffmon import gen, lib, ref
from ffmon.props.c03 import check_part, rand_chunk

CLS = dict(lib.VCLS, **lib.SCLS, norms=Norms, meta=Metadata)


def build(r, n=None):
    n = n or r.choice([1, 2, 3, 3, 4, 6])
    kinds = [r.choice(list(ref.IDS)) for _ in range(n)]
    chunks = [(k, rand_chunk(r, k)) for k in kinds]
    data, spans = ref.write_fifu(chunks)
    return chunks, data, spans


def make(k, o, r):
    if k in ref.VOCABS:
        return lib.vocab(o)
    if k in ref.STORAGES:
        return lib.storage(o, r)
    if k == "norms":
        return Norms(gen.layout(r, o))
    return Metadata(lib.toml.loads(o))


def find(t, r):
    """find_chunk with any set of identifiers from any position; what follows can be read."""
    chunks, data, spans = build(r)
    p = t.file(data)
    with open(p, "rb", buffering=r.choice([-1, -1, 0, 16, 1 << 20])) as f:
        for _ in range(r.randint(3, 8)):
            if r.p(0.5):
                f.seek(r.randrange(len(data) + 1))
            want = r.sample(list(ref.IDS), r.choice([1, 1, 2, 3, len(ref.IDS)]))
            ids = [ChunkIdentifier(ref.IDS[k]) for k in want]
            got = find_chunk(f, ids)
            at = next((i for i, (k, _) in enumerate(chunks) if k in want), None)
            t.note("find", want, "in", [k for k, _ in chunks])
            t.sig("find", tuple(want), tuple(k for k, _ in chunks), len(data))
            if at is None:
                t.check(got is None, "found", got, "although there is no such chunk")
                t.event("absent chunks not found")
                continue
            k, o = chunks[at]
            t.check(got is not None, "chunk not found")
            t.eq(int(got), ref.IDS[k], "identifier found")
            t.eq(f.tell(), spans[at][0] + 12, "position of the file after find_chunk")
            t.event("chunks found")
            # read this chunk and all that follow
            while True:
                mm = k in ref.STORAGES and r.p(0.5)
                c = CLS[k].load(f, mmap=True) if mm else (CLS[k].load(f) if k in ref.STORAGES and r.p(0.3) else CLS[k].read_chunk(f))
                check_part(t, k, c, o, f"chunk {at} ({k}{' mmap' if mm else ''})")
                t.eq(f.tell(), spans[at][1], "position of the file after reading chunk", at, k)
                t.event(f"chunks read {k}{' mmap' if mm else ''}")
                at += 1
                if at == len(chunks) or r.p(0.4):
                    break
                k, o = chunks[at]
                cid, ln = struct.unpack("<IQ", f.read(12))
                t.eq((cid, ln), (ref.IDS[k], spans[at][1] - spans[at][0] - 12), "header of chunk", at)
        f.seek(0)
        h = Header.read_chunk(f)
        t.eq([int(x) for x in h.chunk_ids], [ref.IDS[k] for k, _ in chunks], "identifiers of the header")
        t.eq(f.tell(), 12 + 4 * len(chunks), "position of the file after the header")
        t.event("headers read")
        if f.tell() < len(data):
            back = f.read(4)
            t.eq(back, data[12 + 4 * len(chunks):][:4], "data after the header")


def write(t, r):
    """write_chunk at any offset of a file that holds other data."""
    chunks, _, _ = build(r)
    size = r.choice([0, 1, 2, 3, 4, 5, 30, 1000])
    old = r.randbytes(size + r.choice([0, 0, 5000]))
    p = t.file(old)
    with open(p, r.choice(["r+b", "r+b"]), buffering=r.choice([-1, -1, 16, 1 << 20])) as f:
        f.seek(size)
        want = old[:size]
        if r.p(0.4):
            ids = [ChunkIdentifier(ref.IDS[k]) for k, _ in chunks]
            Header(ids).write_chunk(f)
            want += b"FiFu" + struct.pack("<II", 0, len(ids)) + b"".join(struct.pack("<I", int(i)) for i in ids)
            t.eq(f.tell(), len(want), "position of the file after writing the header")
            t.event("headers written")
        for k, o in chunks:
            c = make(k, o, r)
            if k == "meta":
                o = lib.toml.dumps(lib.toml.loads(o))
            pos = len(want)
            c.write_chunk(f)
            t.note("wrote", k, "at", pos)
            want += ref.chunk(k, o, pos)
            t.eq(f.tell(), len(want), "position of the file after writing", k, "at", pos)
            t.event(f"chunks written {k}")
            t.event(f"chunks written at offset {pos % 4} modulo 4")
    with open(p, "rb") as f:
        got = f.read()
    if len(got) > len(want):
        t.check(len(got) == len(old), "file is longer than expected")
        want += old[len(want):]
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        t.check(False, "bytes differ from offset", i, "got", got[i:i + 20], "want", want[i:i + 20], "lengths", len(got), len(want))
    t.event("oracle checks")
    t.sig("write", tuple(k for k, _ in chunks), size, len(want))


def single(t, r):
    """Chunk.write makes a complete file with one chunk; extended by hand it stays a finalfusion file."""
    k = r.choice(list(ref.IDS))
    o = rand_chunk(r, k)
    p = t.path()
    make(k, o, r).write(p)
    if k == "meta":
        o = lib.toml.dumps(lib.toml.loads(o))
    want, _ = ref.write_fifu([(k, o)])
    got = open(p, "rb").read()
    t.check(got == want, "single-chunk file of", k, "differs from the format")
    k2 = r.choice(list(ref.IDS))
    o2 = rand_chunk(r, k2)
    with open(p, "ab") as f:
        make(k2, o2, r).write_chunk(f)
    with open(p, "rb") as f:
        cid = find_chunk(f, [ChunkIdentifier(ref.IDS[k2])])
        t.check(cid is not None, "appended chunk", k2, "is not found")
        c = CLS[k2].read_chunk(f)
    check_part(t, k2, c, o if k2 == k else o2, f"chunk {k2} appended to {k}")
    t.event("single chunks")
    t.sig("single", k, k2, len(got))


WORKLOADS = dict(find=(find, 5000, 150000), write=(write, 5000, 150000), single=(single, 3000, 90000))
