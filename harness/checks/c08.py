"""C08: order of the values of the tensors in memory -- never taken for another."""
from __future__ import annotations

import random

import numpy as np

from acv_cases import LAYOUT_ANY, LAYOUT_INT, LAYOUT_RAT, graph_case
from acv_core import Check, MachineryError, pool_map, seed, tier, tlc_model, tlc_trace
from acv_nets import Reject
from acv_run import dataset_of, full_run
from checks.c07 import conv_variants, quiet
from checks.c12 import Torch
from checks.net import judge

POOLS = ("MaxPooling2D", "AveragePooling2D")


def shape_of(l) -> list[int]:
    """[C, H, W] of the tensor a layer writes, [] when it has none."""
    while l.name in ACTS and l.previous_layer:
        l = l.previous_layer[0]
    if l.name == "Input_layer":
        return [int(x) for x in l.input_shape[1:]] if len(l.input_shape) == 4 else []
    if hasattr(l, "output_channels"):
        return [int(l.output_channels), int(l.output_height), int(l.output_width)]
    return []


ACTS = {"Relu", "Clip", "Leakyrelu", "Sigmoid", "Tanh", "Exponential", "Logarithm", "Silu", "Linear", "Hardsigmoid"}


def describe(g, asked) -> tuple[list[dict], bool]:
    """The layers of a network as LayoutTrace reads them, and whether all accept their attributes."""
    pos = {l.idx: k + 1 for k, l in enumerate(g.layers)}
    net, able = [], True
    for l in g.layers:
        imp = asked.get(l.idx, asked.get(l.name))
        kind, last, scalar = "other", False, False
        if l.name == "Conv2D":
            kind, last = "conv", imp == "direct_block"
            if last and (l.dilation_rate != 1 or l.pad_left != l.pad_top):
                able = False
        elif l.name in POOLS:
            kind, last = "pool", imp == "channels_last"
        elif l.name in ACTS:
            kind = "act"
        elif hasattr(l, "specific_operator") and hasattr(l, "constant"):
            kind, scalar = "elementwise", l.constant is None or np.size(l.constant) == 1
        written = [shape_of(p) for p in l.previous_layer]
        read = [[int(l.input_channels), int(l.input_height), int(l.input_width)]] if last else written
        net.append({"kind": kind, "last": last, "scalar": scalar, "ins": [pos[p.idx] for p in l.previous_layer],
                    "written": written, "read": read, "shape": shape_of(l)})
    return net, able


def grouped(i):
    """A PyTorch module with grouped convolutions (the ONNX importer has none)."""
    r = random.Random(f"layg-{i}-{seed()}")
    for _ in range(200):
        k = Torch(r, sc=r.choice([1, 256]), ish=[1, r.choice([2, 3, 4, 4, 6]), r.randint(2, 6), r.randint(2, 6)])
        k.f64, k.dt = False, k.t.float32
        k.menu = {4: ["conv"] * 5 + ["act", "act", "add", "pool"]}
        want = r.randint(1, 4)
        try:
            for _ in range(30):
                keep = (len(k.b.init_protos), len(k.b.inits), len(k.b.nodes))
                try:
                    if len(k.steps) < want:
                        k.step()
                except Reject:
                    if len(k.b.nodes) != keep[2]:
                        raise
                    k.b.drop_last_init(*keep[:2])
            convs = [nd for nd in k.b.nodes if nd["op"] == "Conv"]
            if all(q in k.used for q in range(1, len(k.val) - 1)) and any(nd["a"]["group"] > 1 for nd in convs) and \
                    all(nd["a"]["dh"] == 1 and nd["a"]["pads"][0] == nd["a"]["pads"][1] for nd in convs):
                return k.finish(len(k.val) - 1)
        except Reject:
            continue
    return None


def one(i):
    import acetone_nnet as A
    rng = random.Random(f"lay-{i}-{seed()}")
    wide = rng.random() < 0.25
    menus = {1: LAYOUT_INT, 256: LAYOUT_RAT}
    if wide:
        menus = {k: v + LAYOUT_ANY for k, v in menus.items()}
    r = grouped(i) if i % 8 == 7 else graph_case(i, seed(), nmin=1, nmax=7, branch=0.3, tag="lay", menus=menus, size=7, block=True)
    if r is None:
        return None
    b, o = r[:2]
    model, case = r[2] if i % 8 == 7 else b.model(o), b.case(f"lay{'g' if i % 8 == 7 else ''}-{i}", o)
    opt = rng.random() < 0.15
    ds = dataset_of(case, np.float32)
    g0 = None
    if i % 8 != 7:      # (the other implementations of the convolution have no groups)
        with quiet():
            g0 = A.CodeGenerator(file=model, function_name="f", nb_tests=1, test_dataset=ds[:1], optimization=opt)
    lay = "last" if rng.random() < 0.8 else "first"
    asked = {}
    mixed = rng.random() < 0.15
    if lay == "last" and not mixed:
        asked = {"Conv2D": "direct_block", **{p: "channels_last" for p in POOLS}}
    elif mixed and g0:
        for l in g0.layers:
            if l.name == "Conv2D":
                asked[l.idx] = rng.choice([*conv_variants(), *["direct_block"] * 7])
            elif l.name in POOLS:
                asked[l.idx] = rng.choice(["channels_last", "default"])
    net, able = describe(g0, asked) if g0 else ([], True)
    kw = {"versions": asked, "gen_data_format": f"channels_{lay}", "bin_dataset": rng.random() < 0.4, "optimization": opt}
    ch = full_run(model, case, channels=("c", "python") if i % 4 == 0 else ("c",), **kw)
    accepted = ch[0]["status"] not in ("import", "generate")
    case["id"] += f"-{lay}{'-mixed' if mixed else ''}{'-opt' if opt else ''}"
    case["channels"] = ch
    if g0 is None:
        return None, case if accepted else None
    return {"id": case["id"], "lay": lay, "net": net, "able": able, "accepted": accepted, "why": ch[0].get("msg", "")[-200:]}, case if accepted else None


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("random networks generated with channels first or last and with implementations of either order, text and binary "
                "parameters; non-trivial: outputs not constant")
    m = tlc_model("LayoutMC", "Layout.cfg" if quick else "Layout4.cfg")
    if not m["ok"]:
        raise MachineryError("Layout: the rule of acceptance isn't sound\n" + m["out"][-1500:])
    chk.add_states(m)
    if tlc_model("LayoutMC", "LayoutShapes.cfg")["ok"]:
        raise MachineryError("Layout: the negative control passes")
    n = 800 if quick else 8000
    import torch
    torch.set_num_threads(1)
    with quiet():      # warm up before forking
        torch.export.export(torch.nn.Linear(1, 1), (torch.zeros(1, 1),))
    from torch._inductor import config  # noqa: F401

    traces, cases = [], []
    for a, (st, v) in zip(range(n), pool_map(one, list(range(n)), 60)):
        if st == "error":
            raise MachineryError(f"{a}: {v}")
        if st != "ok":
            chk.violation(f"{a}: {st} {v}", {"case": a})
        elif v is not None:
            if v[0] is not None:
                traces.append(v[0])
            if v[1] is not None:
                cases.append(v[1])
    chk.cov["accepted"] = len(cases)
    chk.cov["grouped"] = sum(c["id"].startswith("layg") for c in cases)
    chk.cov["refused"] = len(traces) - len(cases) + chk.cov["grouped"]
    judge(chk, cases)
    r = tlc_trace("LayoutTrace", traces)
    chk.add_states(r)
    chk.traces += len(traces)
    by = {t["id"]: t for t in traces}
    for b in r["bad"]:
        chk.violation(f"{b['case']}: {b['clause']} {by[b['case']]['why']}", {"verdict": b, "trace": by[b["case"]]})
