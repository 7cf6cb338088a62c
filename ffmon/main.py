"""check.sh PROPERTY: build the library from /repo, run the monitors, write evidence."""
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from ffmon import build, ref  # noqa: E402

INFO = {}


def findings():
    """known: property=<id> key=<mechanism> text; 'fixed:' entries suppress nothing."""
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m:
                out[m.group(1), m.group(2)] = m.group(3)
    return out


def code_lines(src):
    """Number of executable lines of the library's Python files."""
    total = 0
    for root, _, files in os.walk(os.path.join(src, "finalfusion")):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                try:
                    stack = [compile(open(p, "rb").read(), p, "exec")]
                except SyntaxError:
                    continue
                lines, top = set(), True
                while stack:
                    c = stack.pop()
                    if not top and c.co_name not in ("<module>",):
                        lines |= {x[2] for x in c.co_lines() if x[2] and x[2] > c.co_firstlineno}
                    top = False
                    stack += [k for k in c.co_consts if hasattr(k, "co_lines")]
                total += len(lines)
    return total


def main():
    t0 = time.monotonic()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rep = json.load(open(sys.argv[3]))
        replay, seed, tier = [rep["workload"], rep["case"]], rep["seed"], rep["tier"]
    meta = importlib.import_module("ffmon.meta").META[prop]
    kind = meta.get("build", "plain")
    root = tempfile.mkdtemp(prefix="ffmon-")
    proc = None

    def cleanup(*_):
        if proc is not None and proc.poll() is None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(root, ignore_errors=True)

    def on_term(*_):
        cleanup()
        os._exit(3)
    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    code = 3
    try:
        n_fix = ref.selftest(os.path.join(build.REPO, "tests", "data"))
        try:
            src = build.build(os.path.join(root, "lib"), kind)
        except build.BuildError as e:
            print(f"INCONCLUSIVE property={prop}: build failed\n{e}")
            return 3
        build_s = time.monotonic() - t0
        work = os.path.join(root, "work")
        os.makedirs(work)
        workers = int(os.environ.get("FFMON_WORKERS", "0")) or min(8, os.cpu_count() or 1)
        soft = float(os.environ.get("FFMON_SOFT", 240 if tier == "quick" else 600))
        req = dict(prop=prop, seed=seed, tier=tier, src=src, root=work, replay=replay,
                   workers=workers, soft_s=soft, out=os.path.join(root, "out.json"),
                   lib=os.path.join(root, "lib"))
        rq = os.path.join(root, "req.json")
        json.dump(req, open(rq, "w"))
        env = build.runtime_env(kind, src)
        if meta.get("shim"):
            env["LD_PRELOAD"] = build.shim(root)
        logf = open(os.path.join(root, "log"), "wb")
        proc = subprocess.Popen([sys.executable, "-X", "faulthandler", "-m", "ffmon.run", rq],
                                cwd=work, env=env, stdout=logf, stderr=logf,
                                stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = proc.wait(timeout=soft + 200)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        cleanup_group(proc)
        log = open(os.path.join(root, "log"), "rb").read().decode("utf-8", "replace")
        if rc != 0 or not os.path.exists(req["out"]):
            print(f"INCONCLUSIVE property={prop}: runner ended with {rc}\n{log[-3000:]}")
            return 3
        res = json.load(open(req["out"]))
        code = report(prop, tier, seed, meta, res, log, build_s, t0, src, n_fix, replay)
        return code
    finally:
        cleanup()


def cleanup_group(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except OSError:
        pass


def report(prop, tier, seed, meta, res, log, build_s, t0, src, n_fix, replay):
    known = findings()
    fresh = []
    seen = set()
    for v in res["violations"]:
        k = (prop, v.get("key"))
        if v.get("key") and k in known:
            if k not in seen:
                print(f"KNOWN-FINDING: property={prop} {known[k]}")
            seen.add(k)
        else:
            fresh.append(v)
    missing = [e for e in meta.get("required", []) if not res["events"].get(e)]
    evaluations = sum(res["cases"].values())
    cov = dict(
        evaluations=evaluations,
        distinct_nontrivial=res["distinct"],
        rule=meta["rule"],
        samples=res["samples"] or [dict(note="no sample recorded")],
        planned_cases=res["planned"],
        cases_per_workload=res["cases"],
        observed_events=dict(sorted(res["events"].items())),
        library_lines_reached=len(res["lines"]),
        library_lines_total=code_lines(src),
        foreign_fixtures_cross_checked=n_fix,
        stopped_early=res["soft"],
        inconclusive_cases=len(res["inconclusive"]),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=meta["level"], coverage=cov,
              assumptions=meta.get("assumptions", []),
              wall_s=round(time.monotonic() - t0, 2), violations=len(fresh))
    if not replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print(f"{prop} {tier} seed={seed}: {evaluations}/{res['planned']} cases, "
          f"{res['distinct']} distinct, {res['events'].get('oracle checks', 0)} oracle checks, "
          f"{len(res['lines'])} library lines, build {build_s:.1f}s, "
          f"total {time.monotonic() - t0:.1f}s")
    if fresh:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(fresh):
            p = os.path.join(d, f"{prop}-{seed}-{n}.json")
            if "killed by" in v["msg"] or "sanitizer" in v["msg"]:
                v["runtime_log"] = log[:4000] + "\n...\n" + log[-4000:]
                hits = re.findall(r".*(?:AddressSanitizer:|runtime error:).*", log)
                if hits:
                    v["msg"] += " | " + " | ".join(dict.fromkeys(h.strip()[:200] for h in hits[:4]))
            with open(p, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, workload=v["workload"],
                               case=v["case"], message=v["msg"], trace=v.get("trace"),
                               log=v.get("log"), runtime_log=v.get("runtime_log"),
                               how=f"bash check.sh {prop} --replay {p}"), f, indent=1)
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  {v['workload']}#{v['case']}: {v['msg'][:1500]}")
            for ln in v.get("log", [])[-8:]:
                print(f"    . {ln[:400]}")
            if v.get("trace"):
                print("    " + v["trace"].strip().replace("\n", "\n    ")[-1500:])
        return 1
    if res["inconclusive"]:
        v = res["inconclusive"][0]
        print(f"INCONCLUSIVE property={prop}: {len(res['inconclusive'])} cases, e.g. "
              f"{v['workload']}#{v['case']}: {v['msg']}\n{log[-2000:]}")
        return 3
    if (missing or evaluations == 0) and not replay:
        print(f"INCONCLUSIVE property={prop}: never observed {missing}, {evaluations} cases")
        return 3
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
