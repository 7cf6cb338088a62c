"""C27: what the library computes and writes depends on its inputs, not on the environment it runs in."""
import json
import os
import subprocess
import sys

from ffmon.core import Inconclusive

PLAIN = dict(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
VARIANTS = {
    "C locale": ("", dict(PLAIN, LC_ALL="C"), []),
    "POSIX locale, ASCII streams": ("", dict(PLAIN, LC_ALL="POSIX", PYTHONIOENCODING="ascii"), []),
    "missing locale": ("", dict(PLAIN, LC_ALL="xx_YY.ISO-8859-1"), []),
    "Latin-1 streams": ("", dict(PYTHONUTF8="0", LC_ALL="C.UTF-8", PYTHONIOENCODING="latin-1"), []),
    "UTF-8 mode": ("", dict(PYTHONUTF8="1", LC_ALL="C"), []),
    "hash seed 0": ("", dict(PYTHONHASHSEED="0"), []),
    "hash seed 1": ("", dict(PYTHONHASHSEED="1"), []),
    "hash seed 4242": ("", dict(PYTHONHASHSEED="4242"), []),
    "relative paths": ("relative", {}, []),
    "development mode": ("", dict(PYTHONMALLOC="debug"), ["-X", "dev"]),
    "optimized": ("", {}, ["-O"]),
    "doubly optimized": ("", {}, ["-OO"]),
    "print options": ("printoptions", {}, []),
    "fixed print options": ("fixedprint", {}, []),
    "no standard input": ("nostdin", {}, []),
    "time zone": ("", dict(TZ="Asia/Tokyo"), []),
    "umask": ("umask", {}, []),
    "unbuffered": ("", dict(PYTHONUNBUFFERED="1"), []),
}
BASE = "C.UTF-8"


def run(t, seed, name):
    variant, env, flags = VARIANTS[name] if name != BASE else ("", {}, [])
    d = t.path()
    os.mkdir(d)
    full = {k: v for k, v in os.environ.items() if k not in ("PYTHONUTF8", "LC_ALL", "LANG", "LC_CTYPE", "TZ", "PYTHONHASHSEED",
                                                             "PYTHONIOENCODING")}
    full.update(LC_ALL="C.UTF-8", PYTHONHASHSEED="7", TZ="UTC", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    full.update(env)
    pre = (lambda: os.umask(0o077)) if variant == "umask" else None
    p = subprocess.run([sys.executable] + flags + ["-m", "ffmon.envrun", seed, d, variant], env=full, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, preexec_fn=pre)
    err = p.stderr.decode("utf-8", "replace")
    if p.returncode:
        return None, f"exit {p.returncode}: {err[-1500:]}"
    return json.loads(p.stdout), err


def environments(t, r):
    seed = f"env:{r.getrandbits(48)}"
    base, err = run(t, seed, BASE)
    if base is None:
        # no reference run: the scenario itself fails (other properties judge that)
        t.check(False, "valid calls fail in the C.UTF-8 locale:", err)
    t.check(not base["changed"], "calls changed process-wide state:", base["changed"])
    names = list(VARIANTS)
    k = t.idx % len(names)
    todo = [names[k], names[(k + 5) % len(names)], r.choice(names)]
    for name in todo:
        t.note("scenario", seed, "in", name)
        res, err = run(t, seed, name)
        t.check(res is not None, f"valid calls fail in the environment '{name}':", err)
        t.check(not res["changed"], "calls changed process-wide state:", res["changed"])
        diff = sorted(k for k in set(base["out"]) | set(res["out"]) if base["out"].get(k) != res["out"].get(k))
        t.check(not diff, f"results differ between {BASE} and the environment '{name}':", diff)
        t.event(f"environment {name}")
        t.event("observations compared", len(res["out"]))
        t.sig(seed, name)
    t.sample(environments=todo, observations=sorted(base["out"])[:8])


WORKLOADS = dict(environments=(environments, 54, 2000))
