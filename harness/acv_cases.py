"""Random cases for the denotational checks: single operators and whole networks."""
from __future__ import annotations

import random

import numpy as np
from onnx import numpy_helper

from acv_nets import FRACTIONAL, OPS, RATIONAL, Net, Reject, g_concat

RANKS = ("Pad", "Transpose", "Tile", "Gather", "GatherElements", "ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd",
         "Concat", "Softmax", "BatchNormalization", "Mean", "Div")
NARY = ("Add", "Sub", "Mul", "Div", "Max", "Min", "Mean", "Concat")
INT_ACT = ["Relu", "Clip"]


def scale_for(op: str, rng: random.Random) -> int:
    if op in FRACTIONAL or (op == "BatchNormalization" and rng.random() < 0.4):
        return 1024
    if op in RATIONAL or (op == "Resize" and rng.random() < 0.6):
        return 256
    return 1


def op_case(op: str, i: int, seed: int, act: bool = True, big: bool = False, **kw):
    """One operator (with its attributes, operand kinds and layouts), optionally activated."""
    rng = random.Random(f"op-{op}-{i}-{seed}" + "-big" * big)
    for _ in range(300):
        sc = scale_for(op, rng)
        hi = 2 if op == "ReduceProd" else 4
        if op not in ("Exp", "ReduceProd") and rng.random() < 0.3:
            hi = rng.choice([1, 20, 100] if op != "Softmax" else [1, 20, 300])
        lo = 1 if op == "Log" else -hi
        ish = [1, rng.randint(1, 3), rng.randint(1, 5), rng.randint(1, 5)]
        if op == "Gemm":
            ish = [rng.choice([1, 1, 1, 2, 3]), rng.randint(1, 6)]
        if op == "MatMul":
            ish = rng.choice([[1, rng.randint(1, 6)], [rng.randint(1, 4), rng.randint(1, 4)], ish])
        if op in RANKS and rng.random() < 0.45:
            ish = [rng.choice([1, 1, 2, 3]), *(rng.randint(1, 5) for _ in range(rng.randint(1, 2)))]
        if big:
            ish = ([1, rng.choice([1, 3, 8, 17, 40]), rng.randint(3, 20), rng.randint(3, 20)] if len(ish) == 4
                   else [ish[0], *(rng.randint(6, 70) for _ in ish[1:])])
            if int(np.prod(ish)) > 2500:
                continue
        b = Net(rng, ish, sc, 1 if big else 2, lo, hi, opset=rng.choice([13, 17, 18, 19]) if op != "Pad" else 19,
                long_names=rng.random() < 0.8, **kw)
        b.big = big
        try:
            if op in NARY and (op == "Concat" or rng.random() < 0.5):
                y = OPS[rng.choice(INT_ACT)](b, 0)
                if op == "Concat":
                    o = g_concat(b, 0, [y] + ([OPS["LeakyRelu"](b, 0)] if rng.random() < 0.4 and sc > 1 else []))
                else:
                    o = OPS[op](b, 0, y)
            else:
                o = OPS[op](b, 0)
            if act and rng.random() < 0.25:
                o = OPS[rng.choice(INT_ACT if sc == 1 else ["Relu", "Clip", "LeakyRelu"])](b, o)
            return b, o
        except Reject:
            continue
    return None


GRAPH_INT = (["Conv"] * 5 + ["MaxPool"] * 2 + ["Add", "Sub", "Mul", "Max", "Min", "Concat"] * 2
             + ["Relu", "Relu", "Clip"] + ["Pad", "Transpose", "Tile", "Gather", "GatherElements", "ReduceSum",
                "ReduceMax", "ReduceMin", "Reshape", "Flatten", "Dropout", "MatMul", "Gemm", "Resize"])
GRAPH_RAT = GRAPH_INT + ["AveragePool", "GlobalAveragePool", "ReduceMean", "Mean", "LeakyRelu", "BatchNormalization",
                         "BatchNormalization"]

LAYOUT_INT = ["Conv"] * 8 + ["MaxPool"] * 3 + ["Add", "Sub", "Mul", "Max", "Min"] + ["Relu", "Clip"] * 2 + ["Dropout"]
LAYOUT_RAT = LAYOUT_INT + ["AveragePool"] * 4 + ["GlobalAveragePool", "Mean", "LeakyRelu"]
LAYOUT_ANY = ["Concat", "Pad", "Transpose", "Tile", "Gather", "ReduceSum", "ReduceMax", "Reshape", "Flatten", "MatMul", "Gemm", "Resize"]

GRAPH_SMOOTH = (["Silu"] * 9 + ["Conv"] * 3 + ["Add", "Sub", "Mul", "Concat", "Sigmoid", "Tanh", "Relu", "LeakyRelu", "MaxPool"]
                + ["BatchNormalization", "Transpose", "Tile", "AveragePool", "Pad", "Gather", "Reshape", "Dropout", "MatMul"])


def merge(b: Net, u: int, v: int) -> int:
    """Join two loose ends."""
    rng = b.rng

    def four(x):
        s = b.shape(x)
        if len(s) == 4:
            return x
        n = int(np.prod(s))
        return b.node("Reshape", [x, b.raw_init(np.array([1, n, 1, 1], np.int64))], {}, None,
                      {"shape": [1, n, 1, 1]}, spec_ins=[x])
    u, v = four(u), four(v)
    if b.shape(u) == b.shape(v) and rng.random() < 0.6:
        return b.node(rng.choice(["Add", "Sub", "Max", "Min"]), [u, v], {}, None, {})
    if b.shape(u)[2:] != b.shape(v)[2:]:
        def squash(x):
            if b.shape(x)[2:] == [1, 1]:
                return x
            at, ins = {"keepdims": 1}, [x]
            if b.opset >= 18:
                ins.append(b.raw_init(np.array([2, 3], np.int64)))
            else:
                at["axes"] = [2, 3]
            return b.node("ReduceMax", ins, at, None, {"axes": [2, 3], "keep": 1, "noop": 0}, spec_ins=[x])
        u, v = squash(u), squash(v)
    return g_concat(b, u, [v])


def graph_case(i: int, seed: int, nmin: int = 3, nmax: int = 9, branch: float = 0.45, tag: str = "graph",
               smooth: bool = False, menus=None, size: int = 5, **kw):
    """A network with branches, tensors read several times, constants and bypassed nodes."""
    rng = random.Random(f"{tag}-{i}-{seed}")
    for _ in range(200):
        sc = rng.choice([1, 1, 256] + ([1024, 1024] if smooth else []))
        ish = [1, rng.randint(1, 3), rng.randint(2, size), rng.randint(2, size)]
        b = Net(rng, ish, sc, 2, -3 if sc < 1024 else -2, 3 if sc < 1024 else 2, opset=rng.choice([13, 17, 18]), long_names=rng.random() < 0.8, **kw)
        menu = GRAPH_INT if sc == 1 else GRAPH_RAT if sc == 256 else GRAPH_SMOOTH
        if menus:
            menu = menus[sc]
        want = rng.randint(nmin, nmax)
        tries = 0
        try:
            while len(b.nodes) < want and tries < 120:
                tries += 1
                live = [v for v in range(len(b.name_of)) if not b.is_init[v]]
                x = live[-1] if rng.random() > branch else rng.choice(live)
                op = rng.choice(menu)
                if not b.nodes and op in ("Reshape", "Flatten", "Dropout", "Gather"):
                    continue
                keep = (len(b.init_protos), len(b.inits))
                try:
                    if op in NARY:
                        same = [v for v in live if v != x and b.shape(v) == b.shape(x)]
                        cand = [v for v in same] or ([x] if rng.random() < 0.1 and op != "Concat" else [])
                        if op == "Concat":
                            others = [v for v in live if v != x and len(b.shape(v)) == 4 and len(b.shape(x)) == 4]
                            if not others:
                                continue
                            g_concat(b, x, rng.sample(others, min(len(others), rng.choice([1, 1, 2]))))
                        elif cand and rng.random() < 0.8:
                            OPS[op](b, x, rng.choice(cand))
                        else:
                            OPS[op](b, x)
                    else:
                        OPS[op](b, x)
                except Reject:
                    b.drop_last_init(*keep)
                    continue
            loose = [v for v in range(len(b.name_of)) if not b.is_init[v] and b.uses[v] == 0]
            rng.shuffle(loose)
            while len(loose) > 1:
                u, v = loose.pop(), loose.pop()
                loose.insert(0, merge(b, u, v))
            if not b.nodes:
                continue
            return b, loose[0]
        except Reject:
            continue
    return None


def any_case(i: int, seed: int, tag: str):
    """One operator or one network, in turn."""
    rng = random.Random(f"any-{tag}-{i}-{seed}")
    if i % 3 == 0:
        ops = sorted(set(OPS))
        return op_case(ops[(i // 3) % len(ops)], i, seed + len(tag))
    return graph_case(i, seed, nmin=2, nmax=9, branch=0.5, tag=tag, smooth=rng.random() < 0.3)


def any_options(rng: random.Random, conv_variants: list[str]) -> dict:
    """Options of a generation that don't change the function."""
    kw = {"optimization": rng.random() < 0.3}
    if rng.random() < 0.5:
        kw["versions"] = {"Conv2D": rng.choice(conv_variants)}
    if rng.random() < 0.3:
        kw["to_hex"] = True
    if rng.random() < 0.3:
        kw["target_page_size"] = rng.choice([64, 4096, 1024])
    return kw


class PadValue(Exception):
    """The operator is not of the wanted kind."""


LINEAR = ["Conv"] * 4 + ["Resize"] * 4 + ["AveragePool", "GlobalAveragePool", "ReduceSum", "ReduceMean", "MatMul", "Gemm", "Mul", "Div",
          "BatchNormalization", "Pad", "Transpose", "Tile", "Gather", "GatherElements", "Reshape", "Flatten", "Add", "Sub", "Mean", "Concat"]
SHIFTED = ["MaxPool", "ReduceMax", "ReduceMin", "Relu"] * 2 + ["AveragePool", "GlobalAveragePool", "ReduceMean", "Resize", "Pad", "Transpose",
           "Tile", "Gather", "GatherElements", "Reshape", "Flatten", "Max", "Min", "Mean", "Concat"]


def precise_case(i: int, seed: int, nmax: int = 4, far: int = 1 << 24):
    """A network of doubles which sends the sum of a large and a small input to the sum of their values.

    Linear networks do so for every large input, those made of selections and averages for a constant one.
    The case's samples are the small inputs; also returns the large one."""
    rng = random.Random(f"precise-{i}-{seed}")
    shifted = i % 3 == 0
    menu = SHIFTED if shifted else LINEAR
    for _ in range(400):
        b = Net(rng, [1, rng.randint(1, 3), rng.randint(2, 4), rng.randint(2, 4)], 256, 2, -3, 3, opset=rng.choice([13, 18]),
                dtype=np.float64, long_names=rng.random() < 0.8)
        b.lim = 1 << 16
        want, tries = rng.randint(1, nmax), 0
        try:
            x = 0
            while len(b.nodes) < want and tries < 60:
                tries += 1
                op = rng.choice(menu)
                keep = (len(b.init_protos), len(b.inits))
                try:
                    if op in NARY and op not in ("Mul", "Div"):
                        same = [v for v in range(len(b.name_of)) if not b.is_init[v] and v != x
                                and (b.shape(v) == b.shape(x) or (op == "Concat" and len(b.shape(v)) == 4 == len(b.shape(x))))]
                        if not same:
                            continue
                        v = rng.choice(same)
                        x = g_concat(b, x, [v]) if op == "Concat" else b.node(op, [x, v] if rng.random() < 0.5 else [v, x], {}, None, {})
                    elif op == "Relu":
                        x = b.node(op, [x], {}, "Reshape", {"shape": b.shape(x)})
                    else:
                        y = OPS[op](b, x)
                        n = b.nodes[-1]
                        if op == "Pad" and n["a"]["mode"] == "constant" and (shifted or n["a"]["value"]):
                            raise PadValue
                        if op == "Div" and b.is_init[n["ids"][0]]:
                            raise PadValue
                        x = y
                except Reject:
                    b.drop_last_init(*keep)
            if not b.nodes or x == 0:
                continue
        except (Reject, PadValue):
            continue
        order = [v for v in range(len(b.name_of)) if b.is_init[v]]
        zero = set()
        for n in b.nodes:
            if n["op"] in ("Conv", "Gemm"):
                zero |= set(n["ids"][2:])
            elif n["op"] == "BatchNormalization":
                zero |= set(n["ids"][2:4])
        for v in zero:
            k = order.index(v)
            b.inits[k]["d"] = [0] * len(b.inits[k]["d"])
            j = next(j for j, p in enumerate(b.init_protos) if p.name == b.name_of[v])
            b.init_protos[j] = numpy_helper.from_array(np.zeros(b.inits[k]["s"], b.dtype), b.name_of[v])
        n = int(np.prod(b.ishape))
        large = [far * rng.randint(1, 4)] * n if shifted else [far * rng.randint(-4, 4) for _ in range(n)]
        return b, x, large
    return None
