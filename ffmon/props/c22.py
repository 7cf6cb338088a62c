"""C22: ffp-similar and ffp-analogy."""
from collections import namedtuple

import numpy as np

from ffmon import gen, lib, ref
from ffmon.cli import run_cli, sub_cli
from ffmon.props import c13, c14
from ffmon.props.c20 import FORMATS
from ffmon.props.c21 import line_ok, make

Hit = namedtuple("Hit", "word similarity")


def source(t, r, fmt):
    p, e = make(t, r, fmt)
    return p, e


def parse(t, out, what):
    """'word similarity' lines."""
    t.check(out == "" or out.endswith("\n"), what, "output does not end with a newline")
    hits = []
    for ln in out.split("\n"):
        if not ln:
            continue
        parts = ln.rsplit(" ", 1)
        t.check(len(parts) == 2 and parts[0], what, "output line", repr(ln))
        try:
            hits.append(Hit(parts[0], np.float32(float(parts[1]))))
        except ValueError:
            t.check(False, what, "output line", repr(ln))
    return hits


def options(r, fmt):
    o = ([r.choice(["-f", "--format"]), fmt] if fmt != "finalfusion" or r.p(0.5) else []) + (["--mmap"] if r.p(0.3) else []) + \
        (["--lossy"] if r.p(0.15) else [])
    return o


def query_words(r, e, n, ok):
    """Known and unknown words that an input line can hold."""
    pool = [w for w in e.vocab.words if ok(w)]
    out = []
    while len(out) < n:
        w = r.choice(pool) if pool and r.p(0.7) else gen.oov(r, e.vocab, nul=False)
        if not ok(w):
            w = "".join(c for c in w if not c.isspace()) or "x"
        out.append(w)
    return out


def similar(t, r, run=run_cli):
    fmt = FORMATS[t.idx % 5] if r.p(0.5) else "finalfusion"
    src, e = source(t, r, fmt)
    emb = lib.embeddings(e)
    queries = query_words(r, e, r.randint(1, 7), line_ok)
    k = r.choice([None, 0, 1, 2, 3, 10, 100])
    opts = options(r, fmt) + ([] if k is None else ["-k", str(k)])
    k = 10 if k is None else k
    data = "".join(("\n" if r.p(0.1) else "") + q + "\n" for q in queries)
    if r.p(0.2):
        data = data[:-1]
    t.note("ffp-similar", opts, queries, gen.describe(e))
    t.sample(opts=opts, queries=[repr(q)[:30] for q in queries])
    if r.p(0.3):
        rc, out, err = run(["similar"] + opts + [src], stdin=data.encode())
        t.event("queries on stdin")
    else:
        rc, out, err = run(["similar"] + opts + [src, t.file(data.encode())])
    what = f"ffp-similar {opts}"
    t.check(rc == 0, what, "failed:", err[-600:])
    hits = parse(t, out, what)
    sims = c13.Sims(e)
    at = 0
    for q in queries:
        if e.vocab.idx(q) is None:
            t.check(q in err, what, "did not report", q, ":", err[-300:])
            t.event("queries without an answer")
            continue
        n = min(k, len([w for w in e.vocab.words if w != q]))
        s, tol = sims(emb.embedding(q))
        c13.judge(t, hits[at:at + n], s, tol + 1e-6 * np.abs(s) + 1e-30, e, {q}, k, f"{what} query {q!r}")
        at += n
        t.event("similarity queries answered")
        t.sig("s", q, k, e.vocab.words)
    t.eq(at, len(hits), what, "number of output lines")
    unanswered = [q for q in queries if e.vocab.idx(q) is None]
    if not unanswered:
        t.eq(err.strip(), "", what, "stderr")
    elif len(unanswered) < len(queries):
        t.event("answers beside unanswered queries")


def analogy(t, r, run=run_cli):
    fmt = FORMATS[t.idx % 5] if r.p(0.5) else "finalfusion"
    src, e = source(t, r, fmt)
    emb = lib.embeddings(e)
    ok = lambda w: bool(w) and not any(c.isspace() for c in w)
    n_q = r.randint(1, 5)
    queries = []
    for _ in range(n_q):
        q = query_words(r, e, 3, ok)
        z = r.random()
        if z < 0.1:
            q = [q[0], q[0], q[1]]
        elif z < 0.2:
            q = [q[0], q[1], q[0]]
        elif z < 0.3:
            q = [q[0], q[1], q[1]]
        queries.append(q)
    k = r.choice([None, 0, 1, 2, 3, 10, 100])
    inc = []
    if r.p(0.7):
        inc = r.sample(["a", "b", "c"], r.randint(1, 3))
    opts = ([] if k is None else ["-k", str(k)]) + options(r, fmt)
    k = 10 if k is None else k
    data = "".join(r.choice(["", "", " "]) + r.choice([" ", " ", "\t", "  "]).join(q) + r.choice(["", "", " "]) + "\n" for q in queries)
    if r.p(0.2):
        data = data[:-1]
    t.note("ffp-analogy", opts, "include", inc, queries, gen.describe(e))
    if r.p(0.3):
        args = ["analogy"] + [src] + opts + ([r.choice(["-i", "--include"])] + inc if inc else [])
        rc, out, err = run(args, stdin=data.encode())
        t.event("queries on stdin")
    else:
        args = ["analogy"] + [src, t.file(data.encode())] + opts + ([r.choice(["-i", "--include"])] + inc if inc else [])
        rc, out, err = run(args)
    what = f"ffp-analogy {opts} include {inc}"
    t.check(rc == 0, what, "failed:", err[-600:])
    hits = parse(t, out, what)
    sims = c13.Sims(e)
    at = 0
    unanswered = 0
    for q in queries:
        if any(e.vocab.idx(w) is None for w in q):
            t.check(all(w in err for w in q), what, "did not report", q, ":", err[-300:])
            t.event("analogies without an answer")
            unanswered += 1
            continue
        skip = {w for w, name in zip(q, "abc") if name not in inc}
        n = min(k, len([w for w in e.vocab.words if w not in skip]))
        c14.judge_answer(t, hits[at:at + n], e, emb, sims, q, k, skip, f"{what} query {q!r}")
        at += n
        t.event("analogies answered")
        t.event(f"include {''.join(sorted(inc)) or 'none'}")
        t.sig("a", q, k, inc, e.vocab.words)
    t.eq(at, len(hits), what, "number of output lines")
    if not unanswered:
        t.eq(err.strip(), "", what, "stderr")
    elif unanswered < n_q:
        t.event("answers beside unanswered queries")


def process(t, r):
    (similar if t.idx % 2 else analogy)(t, r, sub_cli)
    t.event("processes")


def many(t, r):
    """Thousands of queries in one run."""
    ws = gen.cheap_words(r, 30)
    e = gen.E(gen.V("simple", ws), gen.S("nd", gen.matrix(r, 30, 3, "normal")))
    emb = lib.embeddings(e)
    p = t.path()
    emb.write(p)
    n, k = r.choice([1500, 5000]), r.choice([1, 2])
    sims, at, lost = c13.Sims(e), 0, 0
    if t.idx % 2:
        qs = [r.choice(ws) if r.p(0.95) else f"missing{i}" for i in range(n)]
        rc, out, err = run_cli(["similar", "-k", str(k), p, t.file("".join(q + "\n" for q in qs).encode())])
        t.check(rc == 0, "many queries failed:", err[-300:])
        hits = parse(t, out, "many queries")
        known = {w: sims(emb.embedding(w)) for w in ws}
        for i, q in enumerate(qs):
            if q not in known:
                t.check(q in err, "many queries: did not report", q)
                lost += 1
                continue
            s, tol = known[q]
            c13.judge(t, hits[at:at + k], s, tol + 1e-6 * np.abs(s) + 1e-30, e, {q}, k, f"query {i} of {n}: {q!r}")
            at += k
    else:
        qs = [r.sample(ws, 2) + [r.choice(ws) if r.p(0.95) else f"missing{i}"] for i in range(n)]
        rc, out, err = run_cli(["analogy", p, t.file("".join(" ".join(q) + "\n" for q in qs).encode()), "-k", str(k)])
        t.check(rc == 0, "many analogies failed:", err[-300:])
        hits = parse(t, out, "many analogies")
        for i, q in enumerate(qs):
            if q[2] not in e.vocab.index:
                t.check(q[2] in err, "many analogies: did not report", q)
                lost += 1
                continue
            c14.judge_answer(t, hits[at:at + k], e, emb, sims, q, k, set(q), f"analogy {i} of {n}: {q!r}")
            at += k
    t.eq(at, len(hits), "number of output lines for", n, "queries")
    t.event("queries in long runs", n)
    t.sig("many", n, k, lost, ws)


WORKLOADS = dict(many=(many, 16, 300), similar=(similar, 2000, 60000), analogy=(analogy, 2500, 70000), process=(process, 40, 600))
