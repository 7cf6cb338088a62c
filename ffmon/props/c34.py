"""C34: a call that is interrupted anywhere leaves everything usable."""
import ast
import dis
import gc
import os
import random
import sys
import warnings

import finalfusion
import numpy as np

from ffmon import gen, lib
from ffmon.cli import run_cli
from ffmon.core import Violation
from ffmon.props.c07 import make
from ffmon.props.c19 import freeze, operations
from ffmon.props.c25 import handles, mappings
from ffmon.props.c32 import digest
from ffmon.props.c33 import load_tasks
from ffmon.sched import points

SRC = os.path.dirname(os.path.realpath(finalfusion.__file__)) + os.sep
KW = dict(ascii_ws=False, empty=False, nul=False)


class Stop(BaseException):
    """What a time limit in the caller's program may raise."""


KINDS = [KeyboardInterrupt, KeyboardInterrupt, Stop, MemoryError]


FINALLY = {}


def clean_up(path):
    """The lines of finally blocks and exception handlers of a file."""
    if path not in FINALLY:
        out = set()
        try:
            with open(path, encoding="utf8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for x in ast.walk(tree):
            if isinstance(x, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                for y in x.finalbody + x.handlers:
                    out.update(range(y.lineno, y.end_lineno + 1))
        FINALLY[path] = out
    return FINALLY[path]


UNFIT = {}


def unfit(frame):
    """
    Whether the next line belongs to clean-up: no code can be safe from exceptions there, and CPython does not deliver
    signals between the end of a with statement's body and its exit, or between an acquisition and the try that follows.
    """
    code, at = frame.f_code, frame.f_lasti
    if (code, at) not in UNFIT:
        ins = [i for i in dis.get_instructions(code) if i.offset >= at][:4]
        exit_ = len(ins) == 4 and all(i.opname == "LOAD_CONST" and i.argval is None for i in ins[:3]) and ins[3].opname == "CALL"
        UNFIT[code, at] = code.co_name in ("__exit__", "__del__") or exit_ or bool(ins) and ins[0].opname == "NOP" or \
            frame.f_lineno in clean_up(code.co_filename)
    return UNFIT[code, at]


class Lines:
    """Runs a call with the exception raised at the n-th line of library code that it reaches (n=None: records the lines)."""
    def __init__(self, n=None, exc=None):
        self.n, self.exc = n, exc
        self.count, self.where, self.fired = 0, [], None

    def run(self, fn):
        def local(frame, event, arg):
            if event != "line" or unfit(frame):
                return local
            i = self.count
            self.count += 1
            at = (frame.f_code.co_filename[len(SRC):], frame.f_lineno)
            if self.n is None:
                self.where.append(at)
            elif i == self.n:
                self.fired = at
                sys.settrace(None)
                raise self.exc
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SRC) else None
        old = sys.gettrace()
        sys.settrace(trace)
        try:
            return fn()
        finally:
            sys.settrace(old)


def process():
    """Process-wide state that a call must not leave changed."""
    m = os.umask(0)
    os.umask(m)
    return dict(cwd=os.getcwd(), umask=m, random=hash(random.getstate()), np_random=np.random.get_state()[1].tobytes(),
                err=sorted(np.geterr().items()), print=repr(sorted(np.get_printoptions().items())), gc=(gc.isenabled(), gc.get_threshold()),
                warnings=[repr(f) for f in warnings.filters], recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(),
                streams=(id(sys.stdin), id(sys.stdout), id(sys.stderr)), environ=sorted(os.environ.items()))


def attempt(t, r, name, fn, n, result):
    """One interrupted call. Returns what happened."""
    kind = r.choice(KINDS)
    run = Lines(n, kind("interrupted"))
    before = process()
    res = err = None
    try:
        res = run.run(fn)
    except BaseException as x:
        err = x
    if run.fired is None:
        if err is not None:
            raise err
        return None
    at = f"{name}, interrupted by {kind.__name__} at {run.fired[0]}:{run.fired[1]} (line event {n})"
    t.note(at)
    if err is None:
        # running out of memory may be recovered from; the other ones come from the user
        t.check(kind is MemoryError, at, "went on as if nothing had happened")
        t.check(result(res) is True, at, "returned a wrong result")
        t.event("recovered")
    elif kind is not MemoryError:
        t.check(isinstance(err, kind), at, "raised something else:", repr(err))
    err = res = None
    run.exc = None
    now = process()
    if now != before:
        t.check(False, at, "left process-wide state changed:", [k for k in now if now[k] != before[k]])
    t.event("interrupted calls")
    t.event(f"interrupted by {kind.__name__}")
    t.sig(name, run.fired, kind.__name__)
    return at


def queries(t, r):
    """Queries, conversions and writes on one object."""
    e, emb = make(t, r, hi=8, max_sub=25, **KW)
    before = lib.snapshot(emb)
    p = t.path()
    mapped = len(handles(t.root)), len(mappings(t.root))
    ops = [operations(r, e) for _ in range(4)]
    t.sample(calls=[o[0] for o in ops], **gen.describe(e))
    want = [freeze(f(emb, p)) for _, f, _ in ops]
    for (name, f, args), w in zip(ops, want):
        keep = freeze(args[0]), set(args[1])
        rec = Lines()
        rec.run(lambda: f(emb, p))
        for n in points(r, rec.where, 12 if t.quick else 60):
            at = attempt(t, r, name, lambda: f(emb, p), n, lambda x: freeze(x) == w)
            if at is None:
                continue
            t.check(lib.snapshot(emb) == before, at, "changed the embeddings")
            t.check((freeze(args[0]), args[1]) == keep, at, "changed its arguments")
            t.check(freeze(f(emb, p)) == w, at, "another answer when asked again")
            j = r.randrange(len(ops))
            t.check(freeze(ops[j][1](emb, p)) == want[j], at, "afterwards another answer to", ops[j][0])
            if (len(handles(t.root)), len(mappings(t.root))) != mapped:
                gc.collect()
                t.check((len(handles(t.root)), len(mappings(t.root))) == mapped, at, "left files open or mapped:", handles(t.root))
        t.event(f"interrupted {name}")


def assignments(t, r):
    """Changes happen completely or not at all."""
    e, emb = make(t, r, hi=8, max_sub=25, with_norms=True, with_meta=True, **KW)
    n = len(e.vocab.words)
    todo = [("norms", lib.Norms(gen.norms(r, n))), ("norms", None), ("metadata", lib.Metadata(gen.meta(r))), ("metadata", None),
            ("norms", lib.Norms(gen.norms(r, n)))]
    r.shuffle(todo)
    for attr, val in todo:
        def assign(v=val):
            setattr(emb, attr, v)
        old = getattr(emb, attr)
        a = lib.snapshot(emb)
        rec = Lines()
        rec.run(assign)
        b = lib.snapshot(emb)
        setattr(emb, attr, old)
        t.check(lib.snapshot(emb) == a, "assigning", attr, "back does not restore the embeddings")
        if attr == "norms":
            # norms that do not fit are never taken over, interrupted or not
            wrong = lib.Norms(gen.norms(r, n + 1))

            def misfit():
                setattr(emb, "norms", wrong)
            rec2 = Lines()
            try:
                rec2.run(misfit)
            except Exception:
                pass
            t.check(lib.snapshot(emb) == a, "refused norms changed the embeddings")
            for k in points(r, rec2.where, 20):
                try:
                    attempt(t, r, "assignment of norms that do not fit", misfit, k, lambda x: False)
                except Violation:
                    raise
                except Exception:
                    pass
                t.check(lib.snapshot(emb) == a, "an interrupted assignment of norms that do not fit, at", k, "changed the embeddings")
                t.event("interrupted refusals")
        for k in points(r, rec.where, 40):
            at = attempt(t, r, f"assignment to {attr}", assign, k, lambda x: lib.snapshot(emb) == b)
            if at is None:
                continue
            t.check(lib.snapshot(emb) in (a, b), at, "left the embeddings neither as before nor as after")
            assign()
            t.check(lib.snapshot(emb) == b, at, "the assignment made again has another effect")
            setattr(emb, attr, old)
            t.event("interrupted assignments")
        assign()


def loads(t, r):
    """Loads of all formats."""
    for x in load_tasks(t, r, 2):
        files = sorted(os.path.join(t.root, f) for f in os.listdir(t.root))
        data = [open(f, "rb").read() for f in files]
        want = digest(x.fn())
        gc.collect()
        rec = Lines()
        rec.run(x.fn)
        for n in points(r, rec.where, 15 if t.quick else 80):
            at = attempt(t, r, x.name, x.fn, n, lambda y: digest(y) == want)
            if at is None:
                continue
            if handles(t.root) or mappings(t.root):
                gc.collect()
                t.check(not handles(t.root) and not mappings(t.root), at, "left files open or mapped:", handles(t.root))
            y = x.fn()
            t.check(digest(y) == want, at, "loading again gives something else")
            y = None
            t.event("interrupted loads")
        t.check([open(f, "rb").read() for f in files] == data, x.name, "interrupted, changed a file it loads")
        t.event("subject " + x.name.split()[1])


def programs(t, r):
    """An interrupted program does not report success."""
    e = gen.embeddings(r, "ft", "nd", hi=6, max_sub=15, maxlen=6, with_norms=True, **KW)
    if not e.vocab.words:
        return
    src, out = t.path(".fifu"), t.path(".out")
    lib.embeddings(e).write(src)
    ws = e.vocab.words
    k = r.choice(["convert", "bucket_to_explicit", "select", "similar", "analogy"])
    if k == "convert":
        argv = [k, "-f", "finalfusion", "-t", r.choice(["finalfusion", "word2vec", "text", "textdims", "fasttext"]), src, out]
    elif k == "bucket_to_explicit":
        argv = [k, src, out]
    else:
        wl = t.file("".join((" ".join(r.choice(ws) for _ in range(3)) if k == "analogy" else r.choice(ws)) + "\n" for _ in range(5)).encode())
        argv = [k, src, out, wl] if k == "select" else [k, src, wl]

    def fresh():
        if os.path.exists(out):
            os.unlink(out)
        rc, so, _ = run_cli(argv)
        return rc, so, open(out, "rb").read() if os.path.exists(out) else None
    want = fresh()
    if want[0] != 0:
        return
    data = open(src, "rb").read()
    rec = Lines()
    rec.run(fresh)
    for n in points(r, rec.where, 15 if t.quick else 80):
        kind = r.choice(KINDS)
        run = Lines(n, kind("interrupted"))
        before = process()
        try:
            got = run.run(fresh)
        except BaseException as x:
            if not isinstance(x, kind):
                raise
            got = None
        if run.fired is None:
            continue
        at = f"ffp-{k}, interrupted by {kind.__name__} at {run.fired[0]}:{run.fired[1]} (line event {n})"
        t.note(at)
        t.check(got is None or got[0] != 0 or got == want, at, "reports success with another result")
        t.check(process() == before, at, "left process-wide state changed")
        t.check(open(src, "rb").read() == data, at, "changed its input")
        got = fresh()
        t.check(got == want, at, "run again, has another result")
        t.event("interrupted programs")
        t.sig(k, run.fired, kind.__name__)
    t.event(f"program {k}")


def noisy(f):
    """Other numpy settings than the workers have, so that code which leaves its own behind shows."""
    def g(t, r):
        with np.errstate(over=r.choice(["ignore", "warn"]), invalid=r.choice(["ignore", "warn"]), divide=r.choice(["ignore", "warn"])), \
                warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f(t, r)
    return g


WORKLOADS = dict(queries=(noisy(queries), 500, 8000), assignments=(noisy(assignments), 120, 2500), loads=(noisy(loads), 200, 4000), programs=(noisy(programs), 60, 1500))
