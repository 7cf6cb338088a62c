"""Cases, monitors and worker processes."""
import errno
import hashlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

CPU_PER_CASE = 150  # seconds of CPU time after which a case counts as not terminating
MAX_VIOLATIONS = 3
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
                 signal.SIGILL, signal.SIGPROF}


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Inconclusive(Exception):
    pass


class R(random.Random):
    """Random source of one case; .np is a numpy generator of the same seed."""
    def __init__(self, text):
        d = hashlib.sha256(text.encode()).digest()
        super().__init__(int.from_bytes(d[:8], "little"))
        self.np = np.random.default_rng(int.from_bytes(d[8:16], "little"))

    def p(self, x):
        return self.random() < x


class Monitor:
    """Observes one case."""
    def __init__(self, root):
        self.root = root
        self.events, self.sigs, self.samples = {}, set(), []
        self.n_files = 0
        self.log = []
        self.quick = True

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def sig(self, *parts):
        self.sigs.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:16])

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)

    def note(self, *parts):
        """Remembered and shown in the witness of a violation."""
        self.log.append(" ".join(p if isinstance(p, str) else short(p) for p in parts))
        del self.log[:-30]

    def path(self, suffix=""):
        self.n_files += 1
        return os.path.join(self.root, f"f{self.n_files}{suffix}")

    def file(self, data, suffix=""):
        p = self.path(suffix)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def check(self, cond, *msg):
        self.event("oracle checks")
        if not cond:
            raise Violation(" ".join(m if isinstance(m, str) else short(m) for m in msg))

    def eq(self, got, want, *msg):
        self.event("oracle checks")
        if type(got) is bool or type(want) is bool:
            ok = got == want
        else:
            ok = bool(got == want)
        if not ok:
            raise Violation(" ".join(m if isinstance(m, str) else short(m) for m in msg)
                            + f": got {short(got)}, want {short(want)}")

    def bits(self, got, want, *msg):
        """Bit identity of arrays (dtype kind, shape, values; NaN payloads included)."""
        self.event("oracle checks")
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or g.dtype.kind != w.dtype.kind or \
                g.dtype.itemsize != w.dtype.itemsize or le(g) != le(w):
            raise Violation(" ".join(m if isinstance(m, str) else short(m) for m in msg)
                            + f": got {short(g)}, want {short(w)}")

    def close(self, got, want, tol, *msg):
        self.event("oracle checks")
        g = np.asarray(got, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        if g.shape != w.shape or not np.all(np.abs(g - w) <= tol):
            raise Violation(" ".join(m if isinstance(m, str) else short(m) for m in msg)
                            + f": got {short(g)}, want {short(w)}, tolerance {short(tol)}")

    def raises(self, exc, fn, *msg):
        self.event("oracle checks")
        try:
            res = fn()
        except exc as e:
            return e
        except Exception as e:  # wrong exception type
            raise Violation(" ".join(m if isinstance(m, str) else short(m) for m in msg)
                            + f": raised {type(e).__name__}: {e}, expected {exc}")
        raise Violation(" ".join(m if isinstance(m, str) else short(m) for m in msg)
                        + f": returned {short(res)} instead of raising")


def le(a):
    a = np.ascontiguousarray(a)
    return a.astype(a.dtype.newbyteorder("<")).tobytes()


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as e:
        s = f"<{type(x).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + f"... ({len(s)} chars)"


class Coverage:
    """Which lines of the library the workload reached (sys.monitoring)."""
    def __init__(self, src):
        self.src, self.hit = src, set()
        self.tool = None

    def start(self):
        m = getattr(sys, "monitoring", None)
        if m is None:
            return
        try:
            m.use_tool_id(m.COVERAGE_ID, "ffmon")
        except ValueError:
            return
        self.tool = m.COVERAGE_ID

        def line(code, no):
            f = code.co_filename
            if f.startswith(self.src):
                self.hit.add(f"{f[len(self.src) + 1:]}:{no}")
            return m.DISABLE
        m.register_callback(self.tool, m.events.LINE, line)
        m.set_events(self.tool, m.events.LINE)


def worker(wid, mod, prop, seed, tier, cases, counter, stop, deadline, root, src, out):
    os.environ["FFMON_WORKER"] = str(wid)
    cov = Coverage(src)
    cov.start()
    agg = dict(events={}, cases={}, samples=[], violations=[], inconclusive=[], soft=False)
    sigs = set()
    if not os.environ.get("LD_PRELOAD"):
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30 if hard < 0 else min(8 << 30, hard), hard))
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(cases) or stop.value >= MAX_VIOLATIONS:
            break
        if time.monotonic() > deadline:
            agg["soft"] = True
            break
        name, idx = cases[i]
        with open(f"{out}.cur", "w") as f:
            json.dump([name, idx], f)
        signal.setitimer(signal.ITIMER_PROF, CPU_PER_CASE)
        v, t = run_case(mod, prop, seed, tier, name, idx, root)
        signal.setitimer(signal.ITIMER_PROF, 0)
        agg["cases"][name] = agg["cases"].get(name, 0) + 1
        for k, n in t.events.items():
            agg["events"][k] = agg["events"].get(k, 0) + n
        sigs |= t.sigs
        if len(agg["samples"]) < 3:
            agg["samples"] += [dict(workload=name, case=idx, **s) for s in t.samples[:1]]
        if v is not None:
            if v.get("inconclusive"):
                agg["inconclusive"].append(v)
            else:
                agg["violations"].append(v)
                with stop.get_lock():
                    stop.value += 1
        if len(agg["inconclusive"]) > 20:
            break
    agg["sigs"] = sorted(sigs)
    agg["lines"] = sorted(cov.hit)
    with open(out + ".tmp", "w") as f:
        json.dump(agg, f, default=repr)
    os.rename(out + ".tmp", out)
    os._exit(0)


def run_case(mod, prop, seed, tier, name, idx, root):
    d = tempfile.mkdtemp(prefix="case", dir=root)
    t = Monitor(d)
    t.quick = tier == "quick"
    r = R(f"{seed}:{prop}:{name}:{idx}")
    t.idx = idx
    v = None
    try:
        mod.WORKLOADS[name][0](t, r)
    except Violation as e:
        v = dict(msg=str(e), key=e.key)
    except Inconclusive as e:
        v = dict(msg=str(e), inconclusive=True)
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EDQUOT, errno.EAGAIN):
            v = dict(msg=f"{type(e).__name__}: {e}", inconclusive=True)
        else:
            v = dict(msg=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-3000:])
    except Exception as e:
        v = dict(msg=f"unexpected {type(e).__name__}: {short(str(e), 600)}",
                 trace=traceback.format_exc()[-3000:])
    if v is not None:
        v.update(workload=name, case=idx, log=t.log)
    shutil.rmtree(d, ignore_errors=True)
    return v, t


QUICK = 3


def plan(mod, tier):
    """Round-robin over the workloads so that an early stop still sees all."""
    todo = []
    for name, (fn, q, th) in mod.WORKLOADS.items():
        n = min(QUICK * q, max(q, th)) if tier == "quick" else th
        for k in range(n):
            todo.append(((k + 0.5) / n, name, k))
    todo.sort()
    return [(name, k) for _, name, k in todo]


def run_all(mod, prop, seed, tier, root, src, n_workers, soft_s):
    ctx = multiprocessing.get_context("fork")
    counter, stop = ctx.Value("l", 0), ctx.Value("i", 0)
    cases = plan(mod, tier)
    deadline = time.monotonic() + soft_s
    procs = []
    for w in range(n_workers):
        out = os.path.join(root, f"w{w}.json")
        p = ctx.Process(target=worker, args=(w, mod, prop, seed, tier, cases, counter, stop,
                                             deadline, root, src, out))
        p.start()
        procs.append((p, out))
    res = dict(events={}, cases={}, samples=[], violations=[], inconclusive=[], soft=False)
    sigs, lines = set(), set()
    for p, out in procs:
        p.join()
        if os.path.exists(out):
            a = json.load(open(out))
            for k in ("events", "cases"):
                for n, c in a[k].items():
                    res[k][n] = res[k].get(n, 0) + c
            for k in ("samples", "violations", "inconclusive"):
                res[k] += a[k]
            res["soft"] |= a["soft"]
            sigs |= set(a["sigs"])
            lines |= set(a["lines"])
        else:
            try:
                name, idx = json.load(open(out + ".cur"))
            except Exception:
                name, idx = None, None
            s = -(p.exitcode or 0)
            v = dict(workload=name, case=idx, log=[])
            if name is not None and s in {int(x) for x in CRASH_SIGNALS}:
                v["msg"] = "does not terminate" if s == signal.SIGPROF else \
                    f"interpreter killed by {signal.Signals(s).name}"
                res["violations"].append(v)
            else:
                v["msg"] = f"worker ended with {p.exitcode}"
                v["inconclusive"] = True
                res["inconclusive"].append(v)
    res["distinct"] = len(sigs)
    res["lines"] = sorted(lines)
    res["planned"] = len(cases)
    res["samples"] = res["samples"][:8]
    return res
