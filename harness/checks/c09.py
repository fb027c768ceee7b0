"""C09: the inference is a function of its input -- any history of calls, threads, dirty contexts, any batch."""
from __future__ import annotations

import random

from acv_cases import any_case, any_options, graph_case
from acv_core import Check, MachineryError, pool_map, seed, tier, tlc_model, tlc_trace
from acv_probe import batch_run, call_histories
from checks.c07 import conv_variants
from checks.net import judge

SIZES = [1, 2, 31, 32, 33, 34, 63, 64, 65, 95, 96, 97, 100, 128, 129]


def history(i):
    r = any_case(i, seed(), "hist")
    if r is None:
        return None
    b, o = r
    rng = random.Random(f"hist-{i}-{seed()}")
    case = b.case(f"hist-{i}", o)
    th = rng.choice([1, 1, 2, 4])
    case["channels"] = call_histories(b.model(o), case, rng, calls=4, threads=th, **any_options(rng, conv_variants()))
    return case


def widen(case, rng, n):
    """n samples cycling over the ones of the case, in a random order."""
    pick = [rng.randrange(len(case["samples"])) for _ in range(n)]
    return pick, {**case, "samples": [case["samples"][p] for p in pick]}


def batch(i):
    rng = random.Random(f"batch-{i}-{seed()}")
    r = graph_case(i, seed(), nmin=1, nmax=4, branch=0.4, tag="batch")
    if r is None:
        return None
    b, o = r
    case = b.case(f"batch-{i}", o)
    n = SIZES[i % len(SIZES)] if rng.random() < 0.8 else rng.randint(1, 140)
    pick, big = widen(case, rng, n)
    res = batch_run(b.model(o), big, slow=rng.random() < 0.5, **any_options(rng, conv_variants()))
    k = len(case["samples"])
    # what the program answered for each sample, at its first and last occurrences and at one that differs, if any
    chans = []
    for name in ("first", "last", "odd"):
        out = []
        for s in range(k):
            at = [j for j in range(n) if pick[j] == s and j < len(res["out"])]
            if not at:
                out.append(None)
                continue
            odd = next((j for j in at if res["out"][j] != res["out"][at[0]]), at[0])
            out.append(res["out"][{"first": at[0], "last": at[-1], "odd": odd}[name]])
        chans.append(out)
    have = [s for s in range(k) if chans[0][s] is not None]
    case["samples"] = [case["samples"][s] for s in have]
    case["channels"] = [{"name": nm, "status": res["status"], "msg": res["msg"], "lay": "as_is", "out": [out[s] for s in have]}
                        for nm, out in zip(("first", "last", "odd"), chans)]
    tr = {"id": case["id"] + f"-n{n}", "n": n, "max": 32, "status": res["status"], "events": res["events"], "lines": res["lines"],
          "msg": res["msg"]}
    if res["status"] == "ok" and not have:
        return None
    return tr, case if have else None


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("random histories of calls (threads, contexts shared in turn, dirty contexts) on random operators and networks; "
                "generated programs run with threads on datasets of 1 to 140 samples; non-trivial: outputs not constant")
    m = tlc_model("Batch", "Batch.cfg" if quick else "Batch6.cfg")
    if not m["ok"]:
        raise MachineryError("Batch: the design doesn't hold\n" + m["out"][-1500:])
    chk.add_states(m)
    for neg in ("BatchRest.cfg", "BatchNosync.cfg"):
        if tlc_model("Batch", neg)["ok"]:
            raise MachineryError(f"{neg}: the negative control passes")
    cases, traces = [], []
    n, nb = (320, 180) if quick else (4000, 1500)

    def collect(what, st, v):
        if st == "error":
            raise MachineryError(f"{what}: {v}")
        if st != "ok":
            chk.violation(f"{what}: {st} {v}", {"case": what})
        return st == "ok" and v is not None
    for a, (st, v) in zip(range(n), pool_map(history, list(range(n)), 90)):
        if collect(f"hist-{a}", st, v):
            cases.append(v)
    for a, (st, v) in zip(range(nb), pool_map(batch, list(range(nb)), 90)):
        if collect(f"batch-{a}", st, v):
            traces.append(v[0])
            if v[1] is not None:
                cases.append(v[1])
    judge(chk, cases)
    r = tlc_trace("BatchTrace", traces, cost=lambda t: 5 + len(t["events"]))
    chk.add_states(r)
    chk.traces += len(traces)
    by = {t["id"]: t for t in traces}
    chk.cov["samples_in_batches"] = sorted({t["n"] for t in traces})
    for b in r["bad"]:
        chk.violation(f"{b['case']} event {b['event']}: {b['clause']} {b['arg']} {by[b['case']]['msg'][-200:]}", {"verdict": b, "trace": by[b["case"]]})
