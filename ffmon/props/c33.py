"""C33: loading and writing in several threads, and several open files in turn."""
import os

import finalfusion
import numpy as np

from finalfusion.compat import load_fasttext, load_text, load_text_dims, load_word2vec
from finalfusion.io import ChunkIdentifier, Header, find_chunk
from ffmon import gen, lib, ref
from ffmon.props.c06 import WRITERS
from ffmon.props.c32 import digest
from ffmon.sched import Sched, lines, points, preempt, stress

SRC = os.path.dirname(os.path.realpath(finalfusion.__file__)) + os.sep
KW = dict(ascii_ws=False, empty=False, nul=False)
LOAD = {"word2vec": load_word2vec, "text": load_text, "textdims": load_text_dims, "fasttext": load_fasttext}


class Task:
    """A call with everything it needs; run() gives something to compare, the path of a file it wrote, or both."""
    def __init__(self, name, fn, out=None):
        self.name, self.fn, self.out = name, fn, out


def load_tasks(t, r, n, big=False):
    """Loads of a few shared files."""
    res = []
    files = []
    # half of the cases have different contents of the same kind meet in the same code
    alike = r.p(0.5)
    kinds = ["fifu", "fifu", "fifu", "word2vec", "text", "textdims", "fasttext"]
    same = r.choice(kinds), r.choice(["simple", "ff", "ft", "explicit"]), r.choice(["nd", "pq"])
    for _ in range(r.randint(2, 3) if alike else r.randint(1, 3)):
        k = same[0] if alike else r.choice(kinds)
        vs = same[1:] if alike else (None, None)
        ws = gen.cheap_words(r, 200) if big else gen.words(r, r.randint(1, 8), **KW)
        if k == "fifu":
            e = gen.embeddings(r, *vs, hi=8, max_sub=20) if not big else gen.embeddings(r, *vs, ws=ws)
            p = t.path()
            lib.embeddings(e).write(p)
        elif k == "fasttext":
            from ffmon.props.c16 import model
            p = t.file(ref.write_ft(model(r, ws=ws, buckets=20)))
        else:
            m = gen.matrix(r, len(ws), r.choice([1, 3, 7]), "normal")
            p = t.file(ref.write_w2v(ws, m) if k == "word2vec" else ref.write_text(ws, m, k == "textdims"))
            e = None
        files.append((k, p, e if k == "fifu" else None))
    for _ in range(n):
        k, p, e = r.choice(files)
        if k != "fifu":
            res.append(Task(f"load {k}", lambda k=k, p=p: LOAD[k](p)))
            continue
        mmap = r.p(0.4)
        what = r.choice(["all", "all", "vocab", "storage"] + ["norms"] * (e.norms is not None) + ["metadata"] * (e.meta is not None))
        f = {"all": lambda p=p, m=mmap: lib.load_finalfusion(p, mmap=m), "vocab": lambda p=p: lib.load_vocab(p),
             "storage": lambda p=p, m=mmap: lib.load_storage(p, mmap=m), "norms": lambda p=p: lib.load_norms(p),
             "metadata": lambda p=p: lib.load_metadata(p)}[what]
        res.append(Task(f"load {what} mmap={mmap}", f))
    return res


def write_tasks(t, r, n, big=False):
    """Writes of a few shared objects, each to a file of its own."""
    objs = []
    alike = r.p(0.5)
    same = r.choice(["simple", "ff", "ft", "explicit", "ft", "ft"]), r.choice(["nd", "pq"])
    for _ in range(2 if alike else r.randint(1, 2)):
        kind = r.choice([None, "ft"])
        vs = same if alike else (kind, None)
        e = gen.embeddings(r, *vs, ws=gen.cheap_words(r, 200), max_sub=50) if big else gen.embeddings(r, *vs, hi=8, max_sub=20, **KW)
        emb = lib.embeddings(e, r)
        if r.p(0.3):
            p = t.path()
            emb.write(p)
            emb = lib.load_finalfusion(p, mmap=True)
        objs.append((e, emb))
    res = []
    k = None
    for _ in range(n):
        e, emb = r.choice(objs)
        p = t.path()
        k = k if alike and k else r.choice(["fifu", "fifu", "word2vec", "text", "textdims", "chunk"] + ["fasttext"] * (e.vocab.kind == "ft") +
                     ["explicit"] * (e.vocab.kind in ("ff", "ft")))
        if k == "chunk":
            c = r.choice([x for x in (emb.vocab, emb.storage, emb.norms, emb.metadata) if x is not None])
            res.append(Task(f"write {type(c).__name__}", lambda c=c, p=p: c.write(p), p))
        elif k == "explicit":
            res.append(Task("convert", lambda emb=emb: emb.bucket_to_explicit()))
        else:
            res.append(Task(f"write {k}", lambda k=k, emb=emb, p=p: WRITERS[k](p, emb), p))
    return res


def outcome(task, value):
    if task.out is not None:
        return open(task.out, "rb").read()
    if task.name == "convert":
        # the order of the n-grams is free
        v = value.vocab
        return list(v.words), {g: np.asarray(value.storage[len(v.words) + i]).tobytes() for g, i in v.subword_indexer.ngram_index.items()}, \
            np.asarray(value.storage[:len(v.words)]).tobytes()
    return digest(value)


def tasks(t, r, n, big=False):
    k = t.idx % 3
    if k == 0:
        return load_tasks(t, r, n, big)
    if k == 1:
        return write_tasks(t, r, n, big)
    a = load_tasks(t, r, n - n // 2, big) + write_tasks(t, r, n // 2, big)
    r.shuffle(a)
    return a


def judge(t, todo, want, res, how):
    for group, (vals, err) in zip(todo, res):
        t.check(err is None, how, "failed:", [x.name for x in group], repr(err))
        for x, v in zip(group, vals):
            t.check(outcome(x, v) == want[x], how, x.name, "gives something else than alone")
            t.event(f"{how}: {x.name.split()[0]}")


def prepare(t, r, big=False):
    n = r.choice([2, 2, 3, 4])
    flat = tasks(t, r, n * r.choice([1, 2, 3]), big)
    want = {}
    for x in flat:
        want[x] = outcome(x, x.fn())
        if x.out is not None:
            os.unlink(x.out)
    todo = [flat[k::n] for k in range(n)]
    t.sample(threads=[[x.name for x in g] for g in todo])
    t.note("threads", n, [[x.name for x in g] for g in todo])
    fns = [lambda g=g: [x.fn() for x in g] for g in todo]
    return todo, want, fns


def scheduled(t, r):
    todo, want, fns = prepare(t, r)
    s = Sched(r, SRC, r.choice([0.02, 0.1, 0.3, 0.7]))
    res = s.run(fns)
    judge(t, todo, want, res, "interleaved by line")
    t.event("line events", s.points)
    t.event("thread switches", s.switches)
    t.event("tokens taken over", s.steals)
    t.sig("schedule", s.log)


def once(t, r):
    """One call runs to its end at every point of another."""
    flat = tasks(t, r, 2)
    want = {}
    for x in flat:
        want[x] = outcome(x, x.fn())
        if x.out is not None:
            os.unlink(x.out)
    for a, b in (flat, flat[::-1]):
        where = lines(SRC, a.fn)
        for n in points(r, where, 40 if t.quick else 200):
            at = f"{b.name} at {where[n][0]}:{where[n][1]} (line event {n}) of {a.name}:"
            ra, rb, inside = preempt(SRC, n, a.fn, b.fn)
            for x, (v, err) in ((a, ra), (b, rb)):
                t.check(err is None, at, x.name, "failed:", repr(err))
                t.check(outcome(x, v) == want[x], at, x.name, "gives something else than alone")
            t.event("calls inside of a call", int(inside))
            t.sig("once", a.name, b.name, where[n])


def preempted(t, r):
    todo, want, fns = prepare(t, r, big=True)
    rounds = 2
    res = stress(fns, r.choice([1e-6, 1e-6, 1e-5]), rounds)
    judge(t, todo, want, res, "preempted")
    t.sig("preempted", t.idx)


RD = {"simple": lib.VCLS["simple"], "ff": lib.VCLS["ff"], "ft": lib.VCLS["ft"], "explicit": lib.VCLS["explicit"], "nd": lib.NdArray,
      "pq": lib.QuantizedArray, "norms": lib.Norms, "meta": lib.Metadata}


def in_turn(t, r):
    """Several files, and one file opened several times, read and written chunk by chunk in turn."""
    steps = []
    opened = []
    outs = []
    for _ in range(r.randint(2, 3)):
        e = gen.embeddings(r, hi=6, max_sub=15)
        p = t.path()
        lib.embeddings(e).write(p)
        for _ in range(r.choice([1, 1, 2])):
            ch = ref.parse_fifu(open(p, "rb").read())
            f = open(p, "rb")
            opened.append(f)
            steps.append([(f, kind) for kind, _ in ch])
    for _ in range(r.randint(0, 2)):
        e = gen.embeddings(r, hi=6, max_sub=15)
        emb = lib.embeddings(e, r)
        q = t.path()
        emb.write(q)
        p = t.path()
        f = open(p, "wb")
        opened.append(f)
        outs.append((p, open(q, "rb").read()))
        head = Header([c.chunk_identifier() for c in emb.chunks()])
        steps.append([(f, head)] + [(f, c) for c in emb.chunks()])
    alone = []
    for group in steps:
        if isinstance(group[0][1], str):
            alone.append([one(f, k) for f, k in group])
        else:
            alone.append([None] * len(group))
    got = [[] for _ in steps]
    order = [i for i, g in enumerate(steps) for _ in g]
    r.shuffle(order)
    for i in order:
        f, k = steps[i][len(got[i])]
        if isinstance(k, str):
            got[i].append(one(f, k))
        else:
            k.write_chunk(f)
            got[i].append(None)
    for f in opened:
        f.close()
    for i, g in enumerate(steps):
        for (f, k), a, b in zip(g, alone[i], got[i]):
            if isinstance(k, str):
                t.check(digest(a) == digest(b), "chunk", k, "read in turn with other files is something else than alone")
                t.event("chunks read in turn")
            else:
                t.event("chunks written in turn")
    for p, data in outs:
        t.check(open(p, "rb").read() == data, "a file written in turn with others differs from one written alone")
    t.sig("in turn", order)


IDS = {"simple": ChunkIdentifier.SimpleVocab, "ff": ChunkIdentifier.BucketSubwordVocab, "ft": ChunkIdentifier.FastTextSubwordVocab,
       "explicit": ChunkIdentifier.ExplicitSubwordVocab, "nd": ChunkIdentifier.NdArray, "pq": ChunkIdentifier.QuantizedArray,
       "norms": ChunkIdentifier.NdNorms, "meta": ChunkIdentifier.Metadata}


def one(f, kind):
    assert find_chunk(f, [IDS[kind]]) == IDS[kind]
    return RD[kind].read_chunk(f)


WORKLOADS = dict(scheduled=(scheduled, 1000, 30000), preempted=(preempted, 150, 4000), once=(once, 250, 6000), in_turn=(in_turn, 500, 12000))
