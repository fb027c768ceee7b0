"""C05: schedule -- any listing of the same network gives the same function, every layer after its operands."""
from __future__ import annotations

import random

import numpy as np
from onnx import helper, numpy_helper

from acv_cases import graph_case
from acv_core import Check, MachineryError, pool_map, seed, tier, tlc_model, tlc_trace
from acv_run import full_run
from checks.c04 import observe
from checks.net import judge


def relist(protos, rng):
    """Another topological listing of the same nodes."""
    made = {o for p in protos for o in p.output}
    left, done, out = list(protos), set(), []
    style = rng.choice(["uniform", "deep", "late"])
    while left:
        ready = [p for p in left if all(x in done or x not in made for x in p.input)]
        p = rng.choice(ready) if style == "uniform" else ready[-1] if style == "deep" else ready[0]
        left.remove(p)
        done.update(p.output)
        out.append(p)
    return out


def relisted(model, rng, dead=True):
    """The same function, other listing: order of nodes, of initializers, nodes without effect on the output."""
    m = type(model)()
    m.CopyFrom(model)
    ps = list(m.graph.node)
    if dead and rng.random() < 0.6:
        # a node whose result nobody uses, reading tensors of the network
        for k in range(rng.randint(1, 2)):
            src = rng.choice([m.graph.input[0].name, *[p.output[0] for p in ps]])
            ps.append(helper.make_node(rng.choice(["Relu", "Tanh", "Sigmoid"]), [src], [f"unused{k}"], name=f"unused{k}"))
    ps = relist(ps, rng)
    if rng.random() < 0.3:      # an initializer nobody reads
        m.graph.initializer.append(numpy_helper.from_array(np.ones((1, 1, 1, 1), np.float32), "unread"))
    ini = list(m.graph.initializer)
    rng.shuffle(ini)
    del m.graph.initializer[:]
    m.graph.initializer.extend(ini)
    del m.graph.node[:]
    m.graph.node.extend(ps)
    return m


def one(arg):
    i, opt, k = arg
    rng = random.Random(f"listing-{i}-{seed()}")
    r = graph_case(i, seed(), nmin=5, nmax=11, branch=0.6, tag="listing")
    if r is None:
        return None
    b, o = r
    base = b.model(o)
    case = b.case(f"list-{i}{'-opt' if opt else ''}", o)
    case["samples"] = case["samples"][:1]
    chans, traces = [], []
    for v in range(k):
        m = base if v == 0 else relisted(base, rng)
        chs = full_run(m, case, channels=("c", "python") if v == 1 else ("c",), optimization=opt)
        for ch in chs:
            ch["name"] = f"listing {v} {ch['name']}"
        chans += chs
        m2 = base if v == 0 else relisted(base, rng)
        t, _ = observe(m2, case, f"list-{i}-{v}", [], 0, False, optimization=opt)
        traces.append(t)
    case["channels"] = chans
    return case, traces


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("random networks of 5 to 11 layers, each given under several listings (topological orders of the node "
                "list, shuffled initializers, nodes and initializers without effect), with and without optimisation; "
                "non-trivial: outputs not constant")
    m = tlc_model("Schedule", "Schedule5.cfg")
    if not m["ok"]:
        raise MachineryError("Schedule: the design does not hold:\n" + m["out"][-2000:])
    if tlc_model("Schedule", "SchedulePre.cfg")["ok"]:
        raise MachineryError("Schedule: the model cannot tell a wrong order")
    chk.add_states(m)
    n = 220 if quick else 1600
    args = [(i, i % 3 == 2, 4) for i in range(n)]
    cases, traces = [], []
    for a, (st, v) in zip(args, pool_map(one, args, 120)):
        if st == "error":
            raise MachineryError(f"{a}: {v}")
        if st != "ok":
            chk.violation(f"{a}: {st} {v}", {"case": repr(a)})
        elif v is not None:
            cases.append(v[0])
            traces += v[1]
    for t in traces:
        t["consts"] = []
        for la in t["layers"]:
            la.pop("const", None)
    r = tlc_trace("AllocTrace", traces, cost=lambda t: len(t["layers"]) + 2)
    chk.add_states(r)
    chk.traces += len(traces)
    by = {t["id"]: t for t in traces}
    for b in r["bad"]:
        chk.violation(f"{b['case']} layer {b['layer']}: {b['clause']} {b['arg']}", {"verdict": b, "trace": by[b["case"]]})
    judge(chk, cases)
