"""C30: a file can be named in every documented way, for every loader and writer, to the same effect."""
import gc
import os
import pathlib

import numpy as np
import toml

from finalfusion.compat import (load_fasttext, load_text, load_text_dims, load_word2vec, write_fasttext, write_text,
                                write_text_dims, write_word2vec)
from ffmon import gen, lib, ref
from ffmon.cli import run_cli
from ffmon.props import c20

LOAD = dict(finalfusion=lib.load_finalfusion, fasttext=load_fasttext, word2vec=load_word2vec, text=load_text,
            textdims=load_text_dims)
WRITE = dict(finalfusion=lambda p, e: e.write(p), fasttext=write_fasttext, word2vec=write_word2vec,
             text=lambda p, e: write_text(p, e), textdims=lambda p, e: write_text_dims(p, e))
ODD = ["a b", "-f", "--mmap", "%s%d", "{0}", "{x!r}", "~", "~root", "$HOME", "a\nb", "a\tb", "'", '"', "*", "?", "a.gz", ".fifu",
       "...", "ü", "字", "\U0001f600", "e\u0301", "a:b", "file:x", "http:", "\\", "CON", "1", "0", "None", "x" * 255, "ü" * 127,
       " ", " x ", "#", "a;b", "a&b", "\x01", "\x7f", "\u202e", "rb", "[a-z]", "a.b.c", "x.txt.bin.vec"]
RAW = [b"\xff", b"a\xfeb", b"\xc3", b"\xed\xa0\x80", b"caf\xe9", b"\x80" * 255]


class StrPath:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


class Name(str):
    pass


def ways(r, path):
    """(name of the way, function giving the argument, directory to be in)"""
    path = os.fsencode(path)
    d, base = os.path.split(path)
    up = os.path.dirname(d)
    rel = os.path.join(os.path.basename(d), base)
    s = os.fsdecode
    out = [("str", s(path), None), ("bytes", path, None), ("Path", pathlib.Path(s(path)), None),
           ("PurePath", pathlib.PurePosixPath(s(path)), None), ("PathLike of str", StrPath(s(path)), None),
           ("PathLike of bytes", StrPath(path), None), ("subclass of str", Name(s(path)), None),
           ("name in the working directory", s(base), d), ("bytes name in the working directory", base, d),
           ("relative path", s(rel), up), ("relative Path", pathlib.Path(s(rel)), up),
           ("relative bytes", rel, up), ("./ path", "./" + s(base), d),
           ("path with ..", os.path.join(s(d), "..", s(rel)), None),
           ("path with //", s(d) + "//" + s(base), None), ("Path in the working directory", pathlib.Path(s(base)), d),
           ("path through a linked directory and ..", None, None),
           ("descriptor 0", None, None), ("descriptor", None, None), ("descriptor opened in the working directory", None, d)]
    return out


class at:
    """A working directory for a while."""
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.getcwd()
        if self.d is not None:
            os.chdir(self.d)

    def __exit__(self, *_):
        os.chdir(self.old)


def odd_path(t, r, decoy=None):
    """A path whose last component is unusual in a directory of its own; a decoy of the same name lies beside it."""
    d = t.path("d")
    os.mkdir(d)
    if r.p(0.3):
        d = os.path.join(d, r.choice(["a b", "ü", "%d", "-x"]))
        os.mkdir(d)
    base = os.fsencode(r.choice(ODD)) if r.p(0.8) else r.choice(RAW)
    return os.path.join(os.fsencode(d), base)


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def close(fd):
    """The descriptor belongs to the library once it is passed; where it is still open, it is closed here."""
    try:
        os.close(fd)
    except OSError:
        pass
    if fd == 0 and SAVED:
        os.dup2(SAVED[-1], 0)
        os.close(SAVED.pop())


SAVED = []


def argument(way, arg, path, flags):
    if arg is not None:
        return arg, None
    if way.startswith("path"):        # l -> d/sub, so that l/.. is d
        d, base = os.path.split(path)
        sub, link = d + b"-sub/s", d + b"-link"
        if not os.path.lexists(link):
            os.makedirs(sub)
            os.symlink(sub, link)
            os.symlink(d, os.path.dirname(sub) + b"/d")
            put(os.path.join(os.path.dirname(d), base), b"decoy") if not os.path.lexists(os.path.join(os.path.dirname(d), base)) else None
        return os.fsdecode(os.path.join(link, b"..", b"d", base)), None
    fd = os.open(os.path.basename(path) if "working" in way else path, flags, 0o600)
    if way == "descriptor 0":
        SAVED.append(os.dup(0))
        os.dup2(fd, 0)
        os.close(fd)
        return 0, 0
    return fd, fd


def snap(x):
    """What embeddings or a part of them hold, without where they come from."""
    if hasattr(x, "vocab") and hasattr(x, "storage"):
        return lib.snapshot(x)[:-1]
    if isinstance(x, np.ndarray):
        return (type(x).__name__, np.asarray(x).tobytes(), x.shape)
    if isinstance(x, lib.QuantizedArray):
        return (x.shape, np.asarray(x).tobytes())
    if isinstance(x, lib.Metadata):
        return gen.canon(dict(x))
    return (type(x).__name__, tuple(x.words), x.upper_bound, dict(x.word_index))


def sources(t, r):
    """A file and its loaders: (name, loader, arguments)"""
    fmt = r.choice(["finalfusion"] * 6 + ["fasttext", "word2vec", "text", "textdims"])
    src, m = c20.source(t, r, fmt, **(dict(with_norms=True, with_meta=True) if fmt == "finalfusion" and r.p(0.7) else {}))
    data = open(src, "rb").read()
    if fmt != "finalfusion":
        return fmt, data, [(f"load_{fmt}", LOAD[fmt], {})], m
    out = [("load_finalfusion", lib.load_finalfusion, dict(mmap=mm)) for mm in (False, True, True)]
    for f in (lib.load_storage, lib.SLOAD[m.storage.kind]):
        out += [(f.__name__, f, dict(mmap=mm)) for mm in (False, True)]
    out += [(f.__name__, f, {}) for f in (lib.load_vocab, lib.VLOAD[m.vocab.kind])]
    if m.norms is not None:
        out.append(("load_norms", lib.load_norms, {}))
    if m.meta is not None:
        out.append(("load_metadata", lib.load_metadata, {}))
    return fmt, data, out, m


def load(t, r):
    fmt, data, fns, m = sources(t, r)
    path = odd_path(t, r)
    put(path, data)
    link = r.choice([None, None, "symbolic link", "hard link", "relative symbolic link"])
    if link:
        other = odd_path(t, r)
        if link == "hard link":
            os.link(path, other)
        else:
            os.symlink(path if link == "symbolic link" else os.path.relpath(path, os.path.dirname(other)), other)
        path = other
        t.event("links followed")
    plain = t.file(data)
    base = {}
    for way, arg, cwd in r.sample(ways(r, path), 6):
        name, fn, kw = r.choice(fns)
        if cwd is None and r.p(0.5):      # a decoy of the same name in the working directory
            cwd = t.path("cwd")
            os.mkdir(cwd)
            b = os.path.join(os.fsencode(cwd), os.path.basename(path))
            put(b, r.choice([b"", b"FiFu", data[:len(data) // 2], data[::-1], b"1 1\na 1\n"]))
        t.note(name, kw, "by", way, repr(path))
        if name not in base:
            base[name] = snap(fn(plain, **kw))
        with at(cwd):
            a, fd = argument(way, arg, path, os.O_RDONLY)
            try:
                try:
                    got = fn(a, **kw)
                except Exception as x:
                    t.check(False, f"{name}{kw} of a file given as {way} failed with {type(x).__name__}: {x}")
            finally:
                if fd is not None:
                    close(fd)
        if kw.get("mmap") and r.p(0.5):    # what was opened stays what it is when the name is taken away
            moved = path + b".m" if len(os.path.basename(path)) < 200 else path
            if moved != path and not link:
                os.rename(path, moved)
                put(path, b"other")
            gc.collect()
            t.eq(snap(got), base[name], f"{name}{kw} of a file given as {way}, renamed afterwards")
            if moved != path and not link:
                os.unlink(path)
                os.rename(moved, path)
            t.event("mapped files renamed")
        t.eq(snap(got), base[name], f"{name}{kw} of a file given as {way}")
        t.event(f"loaded by {way}")
        t.event(f"calls of {name}{' mmap' if kw.get('mmap') else ''}")
        t.sig(name, str(kw), way, path, data[:64])


def writers(t, r):
    """Objects with their writers: (name, write(target))"""
    fmt = r.choice(["finalfusion"] * 3 + ["fasttext", "word2vec", "text", "textdims"])
    m = gen.embeddings(r, vkind="ft" if fmt == "fasttext" else None, hi=12, max_sub=100, **c20.KW)
    if fmt == "text" and not len(m.vocab.words):
        fmt = "textdims"
    e = lib.embeddings(m)
    out = [(f"write {fmt}", lambda p: WRITE[fmt](p, e))] * 3
    if fmt == "finalfusion":
        parts = [("vocabulary", e.vocab), ("storage", e.storage), ("norms", e.norms), ("metadata", e.metadata)]
        out += [(f"write {n}", x.write) for n, x in parts if x is not None]
    return m, out


def write(t, r):
    m, fns = writers(t, r)
    base = {}
    n = None
    for _ in range(6):
        path = odd_path(t, r)
        way, arg, cwd = r.choice(ways(r, path))
        name, fn = r.choice(fns)
        if name not in base:
            n = t.path()
            fn(n)
            base[name] = open(n, "rb").read()
        t.note(name, "by", way, repr(path), gen.describe(m))
        mine = cwd is None and r.p(0.5)
        if mine:
            cwd = t.path("cwd")
            os.mkdir(cwd)
        stale = r.p(0.3)
        if stale:
            put(path, b"stale" * r.choice([1, 100, 5000]))
        with at(cwd):
            a, fd = argument(way, arg, path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            try:
                try:
                    fn(a)
                except Exception as x:
                    t.check(False, f"{name} to a file given as {way} failed with {type(x).__name__}: {x}")
            finally:
                if fd is not None:
                    close(fd)
            if mine:
                t.eq(os.listdir("."), [], f"{name} to a file given as {way} left something in the working directory")
        t.check(os.path.isfile(path), f"{name} to a file given as {way} made no such file")
        got = open(path, "rb").read()
        t.check(got == base[name], f"{name} to a file given as {way} wrote something else", got[:200], "want", base[name][:200])
        t.eq(os.listdir(os.path.dirname(path)), [os.path.basename(path)], f"{name} to a file given as {way}: files in its directory")
        t.event(f"written by {way}")
        t.event(f"calls of {name}")
        t.sig(name, way, path, base[name][:64])


def refuse(t, r):
    """Names of nothing, of directories and things that name no file."""
    fmt, data, fns, m = sources(t, r)
    d = t.path("d")
    os.mkdir(d)
    for _ in range(8):
        name, fn, kw = r.choice(fns)
        kind = r.choice(["missing", "empty name", "directory", "below a file", "dangling link", "closed descriptor", "type", "NUL", "unreadable"])
        enc = r.choice([str, os.fsencode, pathlib.Path])
        t.note(name, kw, kind)
        if kind == "type":
            bad = r.choice([None, 1.5, ["x"], ("x",), {}, object(), 1j, StrPath(3), StrPath(None), data])
            if bad is data and len(data) < 4096:
                bad = None
            t.raises((TypeError, ValueError, OSError), lambda: fn(bad, **kw), f"{name} of", type(bad).__name__)
            t.event("things that name no file refused")
            continue
        if kind == "NUL":
            t.raises((ValueError, OSError), lambda: fn(r.choice([d + "/a\0b", b"a\0b"]), **kw), f"{name} of a name with NUL")
            t.event("things that name no file refused")
            continue
        p = os.path.join(d, r.choice(["x", "ü", "y z"]))
        if kind == "directory":
            a = enc(d)
        elif kind == "empty name":
            a = r.choice(["", b""])
        elif kind == "below a file":
            a = enc(os.path.join(t.file(data), "x"))
        elif kind == "dangling link":
            if not os.path.lexists(p):
                os.symlink(p + "-none", p)
            a = enc(p)
        elif kind == "closed descriptor":
            a = 1000000 + r.randrange(1000)
        elif kind == "unreadable":      # a descriptor that was opened for writing only
            a = os.open(t.file(data), os.O_WRONLY)
        else:
            a = enc(p + "-missing")
        try:
            t.raises(OSError, lambda: fn(a, **kw), f"{name}{kw} of {kind}")
        finally:
            if kind == "unreadable":
                close(a)
        t.check(not os.path.exists(p) and not os.path.exists(p + "-missing") and not os.path.exists(p + "-none"),
                f"{name} of {kind} made a file")
        t.event(f"refused {kind}")
        t.sig(name, kind, str(kw), p)
    m, fns = writers(t, r)
    for _ in range(4):
        name, fn = r.choice(fns)
        kind = r.choice(["directory", "missing directory", "below a file", "type", "closed descriptor", "read-only descriptor"])
        enc = r.choice([str, os.fsencode, pathlib.Path])
        fd = None
        if kind == "type":
            bad = r.choice([None, 1.5, ["x"], {}, object(), StrPath(3)])
            t.raises((TypeError, ValueError, OSError), lambda: fn(bad), f"{name} to", type(bad).__name__)
            t.event("things that name no file refused")
            continue
        if kind == "directory":
            a = enc(t.path("e"))
            os.mkdir(a)
        elif kind == "missing directory":
            a = enc(os.path.join(d, "none", "x"))
        elif kind == "below a file":
            a = enc(os.path.join(t.file(data), "x"))
        elif kind == "closed descriptor":
            a = 1000000 + r.randrange(1000)
        else:
            p = t.file(data)
            a = fd = os.open(p, os.O_RDONLY)
            if name == "write text":
                # nothing is written where there are no words
                if not len(m.vocab.words):
                    os.close(fd)
                    continue
        try:
            t.raises(OSError, lambda: fn(a), f"{name} to {kind}")
        finally:
            if fd is not None:
                close(fd)
        if fd is not None:
            t.eq(open(p, "rb").read(), data, "a file opened for reading changed")
        t.check(not os.path.exists(os.path.join(d, "none")), f"{name} made a directory")
        t.event(f"refused to write to {kind}")


def command(t, r):
    """Unusual names on the command line of ffp-convert."""
    a, b = r.choice(c20.FORMATS), r.choice([x for x in c20.FORMATS if x != "fasttext"])
    src, model = c20.source(t, r, a)
    path, dst = os.fsdecode(odd_path(t, r)), os.fsdecode(odd_path(t, r))
    data = open(src, "rb").read()
    put(path, data)
    plain = t.path()
    opts = ["-f", a, "-t", b] + (["--mmap"] if r.p(0.4) else [])
    rc, _, err = run_cli(["convert"] + opts + [src, plain])
    t.check(rc == 0, "ffp-convert failed", err[-300:])
    cwd = r.choice([None, os.path.dirname(path), os.path.dirname(dst)])
    p, d = path, dst
    if cwd == os.path.dirname(path):
        p = os.path.basename(path)
    elif cwd:
        d = os.path.basename(dst)
    t.note("convert", opts, repr(p), repr(d), cwd)
    with at(cwd):
        rc, _, err = run_cli(["convert"] + opts + ["--", p, d])
    t.check(rc == 0, f"ffp-convert {opts} of", repr(p), "to", repr(d), "failed", err[-300:])
    t.eq(open(path, "rb").read(), data, "the input changed")
    t.check(os.path.isfile(dst), "ffp-convert made no", repr(dst))
    t.check(open(dst, "rb").read() == open(plain, "rb").read(), f"ffp-convert {opts} of", repr(p), "to", repr(d), "wrote something else")
    t.event("conversions of unusual names")
    t.sig("convert", p, d, a, b)


WORKLOADS = dict(load=(load, 2500, 20000), write=(write, 1500, 10000), refuse=(refuse, 500, 4000), command=(command, 200, 1500))
