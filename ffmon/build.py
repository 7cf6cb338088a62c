"""
Builds the library from the repository's current working tree in a scratch
directory: sources are copied, generated and compiled files are dropped, and
the native extensions are cythonized and compiled again, optionally with
sanitizers. The repository itself is only read.
"""
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("FFMON_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, ".cache")
GEN = ("explicit_indexer.c", "hash_indexers.c", "ngrams.c")
TOP = ("setup.py", "README.md", "pyproject.toml", "MANIFEST.in", "setup.cfg")
FLAGS = {
    "plain": {},
    "asan": {
        "CFLAGS": "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
                  "-fno-sanitize-recover=undefined",
        "LDFLAGS": "-fsanitize=address,undefined",
    },
}


class BuildError(Exception):
    pass


def copy_tree(dst):
    os.makedirs(dst)
    for f in TOP:
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy(p, dst)

    def ignore(d, names):
        return [n for n in names
                if n == "__pycache__" or n.endswith((".so", ".pyc", ".egg-info"))
                or (d.endswith("/subword") and n in GEN)]
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(dst, "src"), ignore=ignore)


def native_key(dst, kind):
    h = hashlib.sha256(repr((kind, FLAGS[kind], sys.version)).encode())
    for root, dirs, files in os.walk(dst):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".pyx", ".pxd", ".pxi", ".c", ".h")) or f in TOP:
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, dst).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:32]


def sos(dst):
    out = []
    for root, _, files in os.walk(os.path.join(dst, "src")):
        out += [os.path.join(root, f) for f in files if f.endswith(".so")]
    return sorted(out)


def build(dst, kind="plain", verbose=False):
    """Returns the directory to put on PYTHONPATH."""
    copy_tree(dst)
    key = native_key(dst, kind)
    cached = os.path.join(CACHE, key)
    sub = os.path.join(dst, "src", "finalfusion", "subword")
    if os.path.exists(os.path.join(cached, "ok")):
        for f in os.listdir(cached):
            if f.endswith(".so"):
                shutil.copy(os.path.join(cached, f), sub)
    else:
        env = dict(os.environ)
        env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin")
        env.update(FLAGS[kind])
        for attempt in ("-j3", "-j1"):
            r = subprocess.run([sys.executable, "setup.py", "-q", "build_ext", "--inplace", attempt],
                               cwd=dst, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=600)
            if r.returncode == 0 and len(sos(dst)) >= 3:
                break
        else:
            raise BuildError(r.stdout.decode("utf-8", "replace")[-3000:])
        try:
            tmp = cached + f".{os.getpid()}"
            os.makedirs(tmp, exist_ok=True)
            for so in sos(dst):
                shutil.copy(so, tmp)
            open(os.path.join(tmp, "ok"), "w").close()
            if not os.path.exists(cached):
                os.rename(tmp, cached)
            else:
                shutil.rmtree(tmp)
        except OSError:
            pass
    shutil.rmtree(os.path.join(dst, "build"), ignore_errors=True)
    return os.path.join(dst, "src")


def runtime_env(kind, src):
    env = dict(os.environ)
    env["PYTHONPATH"] = src + os.pathsep + HERE
    env["PYTHONUTF8"] = "1"
    for k in ("PYTHONOPTIMIZE", "PYTHONWARNINGS", "PYTHONIOENCODING"):
        env.pop(k, None)
    if kind == "asan":
        libs = [subprocess.check_output(["gcc", f"-print-file-name={n}"], text=True).strip()
                for n in ("libasan.so", "libubsan.so")]
        env["LD_PRELOAD"] = ":".join(libs)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
        env["PYTHONMALLOC"] = "malloc"
    return env


def shim(dst):
    """The fault injection library; returns its path."""
    so = os.path.join(dst, "ffmon_shim.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "ffmon", "shim.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if r.returncode:
        raise BuildError(r.stdout.decode("utf-8", "replace")[-2000:])
    return so
