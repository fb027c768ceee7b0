"""C13: generation as a function of its inputs -- histories of generators, reused, over directories that hold files."""
from __future__ import annotations

import json
import os
import random
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import numpy as np
import onnx

from acv_cases import any_case, graph_case
from acv_core import Check, MachineryError, REPO, scratch, seed, tier, tlc, tlc_model, tlc_trace
from checks.c07 import conv_variants
from gen_worker import MAKE, NOTE, dg

BIN = [False, True, False, False, False, False, False, True]
EXT = [False, False, True, False, False, False, False, False]
CUSTOM = ["none", "none", "none", "extra", "nomain", "makefile", "none", "extra"]
OPT = [{"ext": e, "bin": b, "custom": c} for e, b, c in zip(EXT, BIN, CUSTOM)]


def make_group(k: int, d: Path):
    """Eight configurations over two models."""
    r = random.Random(f"gen-{k}-{seed()}")
    models, data = [], []
    for m in range(2):
        if r.random() < 0.5:
            b, o = graph_case(1000 * k + m, seed(), nmin=3, nmax=9, branch=0.5, tag="gen", smooth=r.random() < 0.4)
        else:
            b, o = any_case(1000 * k + m, seed(), "gen") or graph_case(1000 * k + m, seed(), tag="gen2")
        p = d / f"m{k}-{m}.onnx"
        onnx.save(b.model(o), str(p))
        models.append(str(p))
        data.append([[v / b.sc for v in s] for s in b.samples])
    cfgs = []
    for j, o in enumerate(OPT):
        kw = {"external_input": o["ext"], "bin_dataset": o["bin"]}
        if r.random() < 0.4:
            kw["optimization"] = True
        if r.random() < 0.3:
            kw["to_hex"] = False
        if r.random() < 0.3:
            kw["verbose"] = True
        if r.random() < 0.5:
            kw["versions"] = {"Conv2D": r.choice(conv_variants())}
        if r.random() < 0.4:
            kw["makefile_properties"] = {k: v for k, v in {"compiler": "gcc", "compiler_flags": ["-O1", "-w"], "linker_flags": ["-lm"]}.items()
                                         if r.random() < 0.6}
        if r.random() < 0.3:
            kw["target_page_size"] = r.choice([64, 1024])
        cfgs.append({"model": r.choice([0, 0, 1]), "kw": kw, "custom": o["custom"],
                     "random": r.random() < 0.2, "path": r.random() < 0.25})
    return {"models": models, "data": data, "cfgs": cfgs}


def histories(n: int) -> list[list]:
    """Histories of the specification, generated by TLC."""
    r = tlc("GenHistory", "GenHistorySim.cfg", workers=1, extra=["-simulate", f"num={n * 60}", "-depth", "10", "-seed", str(seed() * 7919 + 13)])
    hs = []
    for line in r["out"].splitlines():
        if line.startswith('"HIST '):
            h = json.loads(json.loads(line)[5:])
            if h not in hs:
                hs.append(h)
    if len(hs) < n // 2:
        raise MachineryError("TLC gave too few histories\n" + r["out"][-800:])
    weight = {"build": 3, "infer": 1, "gen": 1}
    hs.sort(key=lambda h: -sum(weight.get(e["k"], 0) for e in h))
    keep = hs[: n // 2]
    rest = hs[n // 2:]
    random.Random(seed()).shuffle(rest)
    return keep + rest[: n - len(keep)]


def run(chk: Check) -> None:
    thorough = tier() == "thorough"
    m = tlc_model("GenHistory", "GenHistory.cfg")
    if not m["ok"]:
        raise MachineryError("GenHistory does not hold\n" + m["out"][-1500:])
    chk.add_states(m)
    n, ng = (200, 20) if not thorough else (1200, 100)
    hs = histories(n)
    r = random.Random(f"put-{seed()}")
    hs = [[{**e, "form": r.choice(["text", "text", "empty", "directory"])} if e["k"] == "put" else e for e in h] for h in hs]
    d = scratch("gen")
    groups = [make_group(k, d) for k in range(ng)]
    nw = 6 if not thorough else 8
    jobs = [[] for _ in range(nw)]
    for i, h in enumerate(hs):
        jobs[i % nw].append({"group": (i // nw) % ng, "hist": h})

    def work(w: int):
        f, o = d / f"in{w}.json", d / f"out{w}.json"
        f.write_text(json.dumps({"groups": groups, "jobs": jobs[w]}))
        env = {**os.environ, "PYTHONHASHSEED": str(w * 101 + 1), "OMP_NUM_THREADS": "1", "ACV_REPO": str(REPO)}
        p = subprocess.run([sys.executable, str(Path(__file__).parent.parent / "gen_worker.py"), str(f), str(o)], env=env,
                           capture_output=True, text=True, timeout=800)
        if not o.exists():
            raise MachineryError(f"worker {w} failed: {p.stderr[-1500:]}")
        return json.loads(o.read_text())

    with ThreadPoolExecutor(nw) as ex:
        res = [x for l in ex.map(work, range(nw)) for x in l]
    cases = []
    fixed = [([{"n": "notes.txt", "d": dg(NOTE.encode())}] if c == "extra" else [{"n": "Makefile", "d": dg(MAKE.encode())}] if c == "makefile" else [])
             for c in CUSTOM]
    for k in range(ng):
        runs = [x for x in res if x["group"] == k]
        if not runs:
            continue
        cases.append({"id": f"group-{k}", "opts": OPT, "fixed": fixed, "caller": runs[0]["caller"],
                      "runs": [{"events": x["events"]} for x in runs]})
        for x in runs:
            chk.add_case(json.dumps([[e["k"], e.get("slot"), e.get("dir"), e.get("cfg"), e.get("name")] for e in x["events"]]) + str(k),
                         [[e["k"], e.get("slot"), e.get("dir"), e.get("cfg"), e.get("name"), e["outcome"]] for e in x["events"]])
    slim = [{**c, "runs": [{"events": [{a: v for a, v in e.items() if a != "msg"} for e in x["events"]]} for x in c["runs"]]} for c in cases]
    r = tlc_trace("GenTrace", slim, cost=lambda c: sum(len(x["events"]) for x in c["runs"]))
    chk.add_states(r)
    by = {c["id"]: c for c in cases}
    seen = set()
    for b in r["bad"]:
        key = (b["case"], b["clause"], b["arg"])
        if key in seen:
            continue
        seen.add(key)
        c = by[b["case"]]
        ev = c["runs"][b["run"] - 1]["events"]
        e = ev[b["event"] - 1]
        g = groups[int(b["case"].split("-")[1])]
        chk.violation(f"{b['case']} run {b['run']} event {b['event']} ({e['k']}): {b['clause']} {b['arg']} {e.get('msg', '')}",
                      {"verdict": b, "history": ev[: b["event"]], "cfgs": g["cfgs"]})
    n_ev = {}
    for x in res:
        for e in x["events"]:
            kk = e["k"] + ("" if e["outcome"] == "ok" else "-" + e["outcome"])
            n_ev[kk] = n_ev.get(kk, 0) + 1
    chk.rule = ("GenTrace: creation, generation, inference, make and the user's own changes of the directories; the files of a generation are those its "
                "options decide, none that exists is touched, and the same configuration always gives the same bytes")
    chk.cov = {"events": n_ev, "processes": nw, "histories_from_tlc": len(hs), "model_depth": 5}
