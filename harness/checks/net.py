"""Shared by the denotational checks: run cases, judge them with NetTrace, report."""
from __future__ import annotations

import hashlib
import json

from acv_core import Check, MachineryError, pool_map, tlc_trace
from acv_run import full_run


def digest(case: dict) -> str:
    return hashlib.md5(json.dumps([case["ishape"], case["nodes"], case["sc"]], sort_keys=True).encode()).hexdigest()


def nontrivial(case: dict) -> bool:
    outs = {tuple(o) for ch in case["channels"] for o in ch["out"]}
    return len(case["nodes"]) > 0 and any(len(set(o)) > 1 or len(o) == 1 for o in outs)


def brief(case: dict) -> dict:
    return {"id": case["id"], "input_shape": case["ishape"], "scale": case["sc"],
            "nodes": [[n["op"], n["a"], n["ins"]] for n in case["nodes"]],
            "input": case["samples"][0][:16],
            "observed": {ch["name"]: ch["out"][0][:8] if ch["out"] else [] for ch in case["channels"]}}


def run_cases(chk: Check, builders: list, make, *, channels, limit: int = 60, label: str = "",
              gen_kw: dict | None = None) -> dict:
    """builders: arguments of make(arg) -> (Net, output, run keywords) or None."""
    def one(arg):
        r = make(arg)
        if r is None:
            return None
        b, o, cid, kw = r
        if isinstance(kw.get("_custom"), dict):  # already run
            return kw["_custom"]
        case = b.case(cid, o)
        if "channels" in case and kw.pop("_custom", None):
            return case
        post = kw.pop("_post", None)
        case["channels"] = full_run(b.model(o), case, channels=channels, **{**(gen_kw or {}), **kw})
        if post:
            post(case)
        return case

    cases = []
    for arg, (st, v) in zip(builders, pool_map(one, builders, limit)):
        if st == "ok":
            if v is not None:
                cases.append(v)
        elif st in ("timeout", "died"):
            chk.violation(f"{label}{arg}: the tool chain {st} ({v})", {"case": repr(arg), "what": v}, key=f"{arg}-{st}")
        else:
            raise MachineryError(f"case {arg}: {v}")
    return judge(chk, cases, label)


def judge(chk: Check, cases: list[dict], label: str = "", key=None) -> dict:
    if not cases:
        raise MachineryError("no case was built")
    r = tlc_trace("NetTrace", [slim(c) for c in cases], cost=lambda c: 5 + sum(len(x) for x in c["samples"]) * len(c["nodes"]))
    chk.add_states(r)
    by = {c["id"]: c for c in cases}
    for c in cases:
        if nontrivial(c):
            chk.keys.add(digest(c))
        chk.traces += len(c["channels"]) * len(c["samples"])
        chk.evaluations += 1
        if len(chk.samples) < 3 and nontrivial(c):
            chk.samples.append(brief(c))
    seen = set()
    for b in r["bad"]:
        if (b["case"], b["channel"]) in seen:
            continue
        seen.add((b["case"], b["channel"]))
        c = by[b["case"]]
        msg = next((ch.get("msg", "") for ch in c["channels"] if ch["name"] == b["channel"]), "")
        chk.violation(f"{label}{b['case']} {b['channel']}: {b['clause']} {b['arg']} got {b['got'] / 16 / c['sc']:.5g} "
                      f"want {b['want'] / 16 / c['sc']:.5g} ops={[n['op'] for n in c['nodes']]} {msg[-160:]}",
                      {"verdict": b, "case": c}, key=key(c, b) if key else "")
    return r


def slim(c: dict) -> dict:
    d = {k: v for k, v in c.items() if k != "desc"}
    d.setdefault("refuse", 0)
    d["channels"] = [{"at": 0, **{k: ch[k] for k in ("name", "status", "lay", "out", "at") if k in ch}} for ch in c["channels"]]
    return d
