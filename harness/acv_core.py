"""Shared machinery of the checks: environment, TLC runner, verdicts, evidence."""
from __future__ import annotations

import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("ACV_REPO", "/repo"))  # the variable only serves trials on scratch copies
EVID = VERIF / "evidence"
PY = "/opt/venv/bin/python"
NCPU = os.cpu_count() or 4

ENV = {
    "HOME": "/root", "LANG": "C.UTF-8", "TF_CPP_MIN_LOG_LEVEL": "3",
    "CUDA_VISIBLE_DEVICES": "", "TF_ENABLE_ONEDNN_OPTS": "0",
    "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0", "KERAS_BACKEND": "tensorflow",
}
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself could not do its work (never a verdict on the code)."""


def seed() -> int:
    return int(os.environ.get("VERIF_SEED", "1"))


def tier() -> str:
    return os.environ.get("VERIF_TIER", "quick")


_SCRATCH: list[str] = []


def scratch(name: str = "acv") -> Path:
    d = tempfile.mkdtemp(prefix=f"{name}-", dir="/tmp")
    _SCRATCH.append(d)
    return Path(d)


def cleanup() -> None:
    for d in _SCRATCH:
        if d.startswith("/tmp/"):
            shutil.rmtree(d, ignore_errors=True)
    _SCRATCH.clear()


def tlc(module: str, cfg: str | None = None, env: dict | None = None, *, workers: int = 1,
        heap: str = "3g", timeout: int = 600, extra: list[str] | None = None) -> dict:
    """Run TLC on spec/<module>.tla; return its log and basic statistics."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir="/tmp")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", f"-Djava.io.tmpdir={meta}", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, min(workers, 4))}",
           "-Xss64m", f"-Xmx{heap}", "-cp", TLC_CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-config", cfg or f"{module}.cfg", "-noGenerateSpecTE", "-nowarning",
           *(extra or []), f"{module}.tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC timeout on {module}: {(ex.stdout or b'')[-500:]}") from ex
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    st = {"states": 0, "distinct": 0, "depth": 0}
    for line in out.splitlines():
        if "states generated," in line and "distinct states found" in line and not line.startswith("Progress"):
            w = line.replace(",", "").split()
            st["states"], st["distinct"] = int(w[0]), int(w[3])
        if "depth of the complete state graph search is" in line:
            st["depth"] = int(line.rstrip(".").split()[-1])
    return {"rc": rc, "out": out, "wall": time.time() - t0, **st}


def tlc_trace(module: str, cases: list, *, shards: int = NCPU, extra_doc: dict | None = None,
              timeout: int = 800, heap: str = "3g", cost=None, keep: Path | None = None) -> dict:
    """Validate recorded cases against trace specification `module`.

    Returns {"bad": [...], "states": n, "distinct": n, "consumed": n}.  Every case must be
    consumed; anything else is a machinery error.
    """
    if not cases:
        return {"bad": [], "states": 0, "distinct": 0, "consumed": 0, "steps": 0}
    shards = max(1, min(shards, len(cases)))
    buckets: list[list] = [[] for _ in range(shards)]
    load = [0.0] * shards
    cost = cost or (lambda c: 1)
    for c in sorted(cases, key=cost, reverse=True):
        i = load.index(min(load))
        buckets[i].append(c)
        load[i] += cost(c)
    d = scratch("trace")

    def one(i: int) -> dict:
        tf, of = d / f"t{i}.json", d / f"o{i}.json"
        tf.write_text(json.dumps({"cases": buckets[i], **(extra_doc or {})}))
        r = tlc(module, env={"TRACE_FILE": tf, "OUT_FILE": of}, timeout=timeout, heap=heap)
        if not of.exists():
            (Path("/tmp") / f"tlc-fail-{module}.log").write_text(r["out"])
            raise MachineryError(f"{module}: TLC gave no verdict (rc={r['rc']}):\n" + r["out"][-3000:])
        res = json.loads(of.read_text())
        if res["consumed"] != len(buckets[i]):
            raise MachineryError(f"{module}: consumed {res['consumed']} of {len(buckets[i])}")
        return {**r, **res}

    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    if keep:
        keep.write_text(json.dumps({"cases": cases, **(extra_doc or {})}))
    out = {"bad": [], "states": 0, "distinct": 0, "consumed": 0, "steps": 0}
    for r in rs:
        out["bad"].extend(r["bad"])
        for k in ("states", "distinct", "consumed"):
            out[k] += r[k]
        out["steps"] += r.get("steps", 0)
        for k, v in r.items():
            if k.startswith("cov_"):
                out[k] = out.get(k, 0) + v
    return out


def tlc_model(module: str, cfg: str, *, workers: int = NCPU, timeout: int = 800, heap: str = "8g",
              env: dict | None = None, extra: list[str] | None = None) -> dict:
    """Exhaustive model check of a design configuration; it must hold."""
    r = tlc(module, cfg, env, workers=workers, timeout=timeout, heap=heap, extra=extra)
    ok = r["rc"] == 0 and "No error has been found" in r["out"]
    return {**r, "ok": ok}


# --------------------------------------------------------------------------- verdicts
def known_findings(prop: str) -> list[dict]:
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text())["findings"] if k["property"] == prop]


class Check:
    """Collects violations of one property and writes its evidence."""

    def __init__(self, prop: str, level: str = "model_checking") -> None:
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations: list[dict] = []
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples: list = []
        self.keys: set[str] = set()
        self.evaluations = 0
        self.rule = ""
        self.cov: dict = {}
        self.assumptions: list[str] = []
        self.known = known_findings(prop)
        self.known_hit: set[str] = set()

    def add_states(self, r: dict) -> None:
        """Account for one TLC run."""
        self.states += r.get("distinct", 0)
        self.transitions += r.get("states", 0)
        self.steps += r.get("steps", 0)

    def add_case(self, key: str, sample=None) -> None:
        """Account for one trace of the implementation judged by the specification."""
        self.traces += 1
        self.evaluations += 1
        self.keys.add(key)
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def violation(self, what: str, detail, key: str = "") -> None:
        for k in self.known:
            if key and key == k["key"]:
                self.known_hit.add(k["key"])
                return
        self.violations.append({"what": what, "key": key, "detail": detail})

    def finish(self) -> int:
        EVID.mkdir(exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "evaluations": self.evaluations, "distinct_nontrivial": len(self.keys),
               "rule": self.rule, "trace_steps": self.steps, **self.cov}
        ev = {"property": self.prop, "tier": tier(), "seed": seed(), "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        (EVID / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
        for k in self.known:
            if k["key"] in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.violations:
            rp = EVID / f"{self.prop}.replay.json"
            rp.write_text(json.dumps(self.violations[:400], indent=1, default=str))
            for v in self.violations[:8]:
                print(f"  {v['what']}"[:400])
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(f"OK property={self.prop} tier={tier()} traces={self.traces} states={self.states} "
              f"wall={time.time() - self.t0:.1f}s")
        return 0


# --------------------------------------------------------------------------- worker pool
class CaseTimeout(Exception):
    """A single case ran for too long."""


def _guard(fn, arg, limit):
    import signal
    import traceback

    def on(_s, _f):
        raise CaseTimeout(f"case over {limit}s")
    signal.signal(signal.SIGALRM, on)
    signal.alarm(limit)
    try:
        return ("ok", fn(arg))
    except CaseTimeout as e:
        return ("timeout", str(e))
    except Exception as e:  # noqa: BLE001
        return ("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    finally:
        signal.alarm(0)


def pool_map(fn, args: list, limit: int = 60, procs: int = NCPU) -> list[tuple[str, object]]:
    """Apply fn to every argument in forked workers; a case that raises, hangs or dies is reported."""
    import multiprocessing as mp
    import pickle
    ctx = mp.get_context("fork")
    args = list(args)
    nxt = ctx.Value("i", 0)
    q = ctx.SimpleQueue()

    def work(w: int) -> None:
        os.environ["OMP_NUM_THREADS"] = "1"
        while True:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= len(args):
                break
            q.put(("start", w, i, None))
            r = _guard(fn, args[i], limit)
            try:
                pickle.dumps(r)
            except Exception as e:  # noqa: BLE001
                r = ("error", f"unpicklable result: {e}")
            q.put(("done", w, i, r))
        q.put(("end", w, -1, None))
        os._exit(0)

    out: list = [None] * len(args)
    ps = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(min(procs, max(1, len(args)))):
        ps[w] = ctx.Process(target=work, args=(w,), daemon=True)
        ps[w].start()
    cur: dict[int, int] = {}
    nw = len(ps)
    t_start: dict[int, float] = {}
    while ps:
        if q._reader.poll(0.5):
            kind, w, i, r = q.get()
            if kind == "start":
                cur[w], t_start[w] = i, time.time()
            elif kind == "done":
                out[i] = r
                cur.pop(w, None)
            else:
                ps.pop(w, None)
            continue
        for w, p in list(ps.items()):
            hung = w in cur and time.time() - t_start[w] > limit + 30
            if hung:
                p.kill()
                p.join()
            if hung or not p.is_alive():
                if q._reader.poll(0.2):
                    break
                if w in cur:
                    i = cur.pop(w)
                    out[i] = ("timeout", "hung") if hung else ("died", f"worker exit code {p.exitcode}")
                ps.pop(w, None)
                if nxt.value < len(args):
                    ps[nw] = ctx.Process(target=work, args=(nw,), daemon=True)
                    ps[nw].start()
                    nw += 1
    return [r if r is not None else ("died", "no result") for r in out]
