"""C03: a whole network, from the model file to the outputs of the C program and of the Python reference."""
import random
import tempfile
from pathlib import Path

import numpy as np

from acv_cases import graph_case, precise_case
from acv_core import Check, seed, tier
from acv_nets import OPS, Net, Reject
from acv_run import enc, full_run, words
from checks.net import run_cases


def make(arg):
    i, s, kw = arg
    if kw == "linear":
        return precise(i, s)
    if kw == "smooth":
        return smooth(i, s)
    r = graph_case(i, s, **kw)
    return None if r is None else (*r, f"net-{i}", {"bin_dataset": True} if i % 7 == 0 else {})


def number(w: str) -> float:
    return float.fromhex(w) if "0x" in w or "p" in w else float(w)


def differences(chs: list, d: Path, n: int, sc: int, gain: float) -> None:
    """What the outputs of the other inputs have more than that of the first one."""
    for ch in chs:
        if ch["status"] != "ok":
            ch["out"] = [[]] * n
            continue
        try:
            rows = [[number(w) for w in l] for l in words(d / ("c/output_c.txt" if ch["name"] == "c" else "output_python.txt"))]
            rows += [[]] * (1 + n - len(rows))
            ch["out"] = [[enc((y - x) * gain, sc) for x, y in zip(rows[0], z)] if len(z) == len(rows[0]) else [] for z in rows[1:1 + n]]
        except ValueError as e:
            ch["status"], ch["msg"], ch["out"] = "text", str(e), [[]] * n


GAIN = 1 << 24


def smooth(i: int, s: int):
    """Doubles: the answer to a small change of the input is that of the derivative."""
    rng = random.Random(f"smooth-{i}-{s}")
    op = ["Sigmoid", "Tanh", "Exp", "Log", "Softmax", "Silu"][i % 6]
    ish = [1, rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)] if rng.random() < 0.6 else [1, rng.randint(2, 8)]
    b = Net(rng, ish, 1024, 1, 1 if op == "Log" else -3, 3, dtype=np.float64)
    try:
        o = OPS[op](b, 0)
    except Reject:
        return None
    n = int(np.prod(ish))
    way = [rng.choice([-1, 0, 1, 2]) for _ in range(n)]
    case = b.case(f"smooth-{i}", o)
    if op == "Silu" and case["nodes"][1]["ins"].count(1) != 1:
        return None
    # values: 1 the input, 2 the direction of the change, 3 the number one, 4 the output, and so on
    case["inits"] = [{"s": ish, "d": [1024 * w for w in way]}, {"s": [1] * len(ish), "d": [1024]}]
    no = {"z": 0}

    def N(op, *ins, a=no):
        return {"op": op, "a": a, "ins": list(ins)}
    f = N({"Silu": "Sigmoid"}.get(op, op), 1, a=case["nodes"][0]["a"])
    if op == "Sigmoid":
        case["nodes"] = [f, N("Sub", 3, 4), N("Mul", 4, 5), N("Mul", 6, 2)]
    elif op == "Tanh":
        case["nodes"] = [f, N("Mul", 4, 4), N("Sub", 3, 5), N("Mul", 6, 2)]
    elif op == "Exp":
        case["nodes"] = [f, N("Mul", 4, 2)]
    elif op == "Log":
        case["nodes"] = [N("Div", 2, 1)]
    elif op == "Silu":  # s (1 + x (1 - s))
        case["nodes"] = [f, N("Sub", 3, 4), N("Mul", 1, 5), N("Add", 3, 6), N("Mul", 4, 7), N("Mul", 8, 2)]
    else:  # Softmax: s (d - sum of s d)
        ax = case["nodes"][0]["a"]["axis"]
        case["nodes"] = [f, N("Mul", 4, 2), N("ReduceSum", 5, a={"axes": [ax], "keep": 1, "noop": 0}), N("Sub", 2, 6), N("Mul", 4, 7)]
    case["outv"] = 3 + len(case["nodes"])
    x = case["samples"][0]
    with tempfile.TemporaryDirectory(prefix="acv-double-") as d:
        both = {**case, "samples": [x, [v + w * 1024 / GAIN for v, w in zip(x, way)]]}
        chs = full_run(b.model(o), both, dtype=np.float64, channels=("c", "python"), keep=Path(d), optimization=op == "Silu" and rng.random() < 0.6)
        differences(chs, Path(d), 1, 1024, GAIN)
    case["channels"] = chs
    return b, o, case["id"], {"_custom": case}


def precise(i: int, s: int):
    """Doubles: what a small input adds to a large one is the value of the small one."""
    r = precise_case(i, s)
    if r is None:
        return None
    b, o, large = r
    case = b.case(f"double-{i}", o)
    small = case["samples"]
    rng = random.Random(f"precise-options-{i}-{s}")
    kw = {"optimization": rng.random() < 0.3, "versions": {"Conv2D": rng.choice(["6loops", "std_gemm_nn", "indirect_gemm_nn"])}}
    with tempfile.TemporaryDirectory(prefix="acv-double-") as d:
        both = {**case, "samples": [large, *([x + y for x, y in zip(large, z)] for z in small)]}
        chs = full_run(b.model(o), both, dtype=np.float64, channels=("c", "python"), keep=Path(d), **kw)
        differences(chs, Path(d), len(small), case["sc"], 1)
    case["channels"] = chs
    return b, o, f"double-{i}", {"_custom": case}


def run(chk: Check) -> None:
    chk.rule = ("random network of 3 to 9 layers with branches, tensors read several times, constants and bypassed "
                "nodes, two random inputs; networks of doubles fed with the sum of a large and a small input; "
                "non-trivial: the observed outputs are not constant")
    n = 800 if tier() == "quick" else 6000
    plan = [(i, seed(), {} if i % 3 else {"nmin": 6, "nmax": 12, "branch": 0.65}) for i in range(n)]
    plan += [(i, seed(), "linear") for i in range(n // 4)] + [(i, seed(), "smooth") for i in range(n // 16)]
    run_cases(chk, plan, make, channels=("c", "python"))
