"""C11: every bit of the parameters, constants and test inputs reaches the program, in every form."""
from __future__ import annotations

import json
import random
import shutil
import struct
import subprocess
import tempfile
from pathlib import Path

import numpy as np
from onnx import numpy_helper

from acv_cases import graph_case
from acv_core import Check, MachineryError, pool_map, seed, tier, tlc_trace
from acv_nets import OPS, Net, Reject
from acv_probe import quiet
from acv_run import CFLAGS
from checks.c07 import conv_variants

MOVES = ["Concat", "Transpose", "Tile", "Gather", "GatherElements", "Reshape", "Flatten", "Dropout", "Pad"]
HEADS = ["move", "move", "add", "sub", "mul", "max", "min", "gemm", "gemm", "matmul", "conv", "conv", "bn", "clip", "leaky", "pad"]

PROBE = r"""
#include <stdio.h>
#include "test_dataset.h"
#include "inference.h"
static %(T)s out[nn_output_size];
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "w");
    for (int i = 0; i < nb_samples; ++i) {
        inference(&Context[0], out, nn_test_inputs[i]);
        for (int k = 0; k < nn_output_size; ++k) fprintf(f, "%%a ", (double)out[k]);
        fprintf(f, "\n");
    }
    return fclose(f);
}
"""


def token(v: float, dtype) -> str:
    """The name of a value: its bits."""
    if v != v:
        return "nan"
    with np.errstate(all="ignore"):
        w = dtype(v)
    if float(w) != float(v):
        return f"inexact {float(v).hex()}"
    return struct.pack(">f" if dtype == np.float32 else ">d", w).hex()


def number(rng: random.Random, dtype, wild: bool) -> float:
    """A value; wild: with infinities, NaN, -0."""
    t = rng.random()
    i = np.finfo(dtype)
    if wild and t < 0.15:
        return rng.choice([float("inf"), float("-inf"), float("nan"), -0.0, 0.0])
    if t < 0.3:
        v = rng.choice([float(i.max), float(i.smallest_subnormal), float(i.tiny), 1 + float(i.eps), 1 - float(i.epsneg), 0.1,
                        1 / 3, 1e-30, 16777217.0, float(i.tiny) - float(i.smallest_subnormal), 3.0, 65504.0])
        v = float(dtype(v)) * rng.choice([1, -1])
    elif t < 0.7:
        while True:
            b = rng.getrandbits(32 if dtype == np.float32 else 64)
            v = struct.unpack(">f" if dtype == np.float32 else ">d", b.to_bytes(4 if dtype == np.float32 else 8, "big"))[0]
            if np.isfinite(v):
                break
    else:
        v = float(dtype(rng.choice([rng.uniform(-1, 1), rng.uniform(-1000, 1000), rng.randint(-9, 9), round(rng.uniform(-9, 9), 2)])))
    return v if v != 0 or wild else 1.0


class Head:
    """The first node: which input values make it show which parameters."""

    def __init__(self, kind: str, rng, dtype) -> None:
        self.rng, self.dtype, self.kind = rng, dtype, kind
        self.inits = {}      # init index -> array of real values
        self.wild = kind in ("move", "add", "mul")

    def arr(self, shape, wild=None):
        w = self.wild if wild is None else wild
        n = int(np.prod(shape))
        return np.array([number(self.rng, self.dtype, w) for _ in range(n)], self.dtype).reshape(shape)

    def build(self):
        """(Net, last value, samples as arrays)."""
        r, k = self.rng, self.kind
        if k in ("gemm", "matmul"):
            ish = [1, r.randint(1, 7)]
        elif k == "conv":
            ish = [1, r.randint(1, 4), 1, 1]
        else:
            ish = [1, r.randint(1, 3), r.randint(1, 4), r.randint(1, 4)]
        b = Net(r, ish, 1, 2, 0, 1, opset=19, dtype=self.dtype)
        size = int(np.prod(ish))
        self.attrs = {}

        def const(shape):
            v = b.init(np.ones(shape, int))
            self.inits[len(b.inits) - 1] = self.arr(shape)
            return v
        hot = np.eye(size)
        if k in ("add", "mul", "sub", "max", "min"):
            if k == "sub":
                v = b.init(np.zeros(ish, int))
                o = b.node("Sub", [0, v], {}, None, {})
                self.inits[len(b.inits) - 1] = np.zeros(ish, self.dtype)
                xs = [self.arr(ish, False) for _ in range(2)]
            else:
                cs = [d if r.random() < 0.7 else 1 for d in ish]
                if r.random() < 0.2:
                    cs = cs[r.randint(1, 3):]
                v = const(cs)
                ins = [0, v] if r.random() < 0.6 else [v, 0]
                o = b.node(k.capitalize(), ins, {}, None, {})
                xs = [np.full(ish, {"add": -0.0, "mul": 1.0, "max": -np.inf, "min": np.inf}[k])]
        elif k == "gemm":
            n, tb = r.randint(1, 5), r.choice([0, 1])
            ins = [0, const([n, size] if tb else [size, n])]
            xs = [hot[j] for j in range(size)]
            if r.random() < 0.5:
                ins.append(const(r.choice([[n], [1, n]])))
                if r.random() < 0.5:
                    xs = [np.zeros(size)]
                else:
                    self.inits[len(b.inits) - 1] = np.zeros_like(self.inits[len(b.inits) - 1])
            o = b.node("Gemm", ins, {"transB": tb}, None, {"tB": tb})
        elif k == "matmul":
            o = b.node("MatMul", [0, const([size, r.randint(1, 5)])], {}, None, {})
            xs = [hot[j] for j in range(size)]
        elif k == "conv":
            kh, kw, oc = r.randint(1, 3), r.randint(1, 3), r.randint(1, 4)
            ins = [0, const([oc, size, kh, kw])]
            xs = [hot[j] for j in range(size)]
            if r.random() < 0.5:
                ins.append(const([oc]))
                if r.random() < 0.5:
                    xs = [np.zeros(size)]
                else:
                    self.inits[len(b.inits) - 1] = np.zeros_like(self.inits[len(b.inits) - 1])
            o = b.node("Conv", ins, {"kernel_shape": [kh, kw], "pads": [kh - 1, kw - 1, kh - 1, kw - 1], "strides": [1, 1]}, None, {})
        elif k == "bn":
            c = ish[1]
            ins = [0, *[const([c]) for _ in range(4)]]
            n = len(b.inits) - 4
            self.inits[n + 2], self.inits[n + 3] = np.zeros(c, self.dtype), np.ones(c, self.dtype)
            if r.random() < 0.5:
                self.inits[n + 1] = np.zeros(c, self.dtype)
                xs = [np.ones(size)]
            else:
                xs = [np.zeros(size)]
            o = b.node("BatchNormalization", ins, {"epsilon": 0.0}, None, {})
        elif k == "clip":
            lo, hi = sorted([number(r, self.dtype, False), number(r, self.dtype, False)])
            a, z = b.raw_init(np.array(lo, self.dtype)), b.raw_init(np.array(hi, self.dtype))
            b.val = [[np.zeros(ish)] * 2]
            b.lim = float("inf")
            o = b.node("Clip", [0, a, z], {}, None, {"lo": token(lo, self.dtype), "hi": token(hi, self.dtype)}, spec_ins=[0], lim=float("inf"))
            xs = [np.array([r.choice([np.inf, -np.inf]) for _ in range(size)]) for _ in range(2)]
        elif k == "leaky":
            alpha = float(np.float32(abs(number(r, np.float32, False))))
            o = b.node("LeakyRelu", [0], {"alpha": alpha}, None, {"neg": token(-alpha, self.dtype)}, lim=float("inf"))
            xs = [np.array([r.choice([-1.0, 1.0]) for _ in range(size)])]
            b.val[-1] = [np.ones(ish)] * 2
        elif k == "pad":
            v = number(r, self.dtype, True)
            p = [0, 0, r.randint(0, 2), r.randint(0, 2), 0, 0, r.randint(0, 2), r.randint(0, 2)]
            o = b.node("Pad", [0, b.raw_init(np.array(p, np.int64)), b.raw_init(np.array(0, self.dtype))], {"mode": "constant"}, None,
                       {"mode": "constant", "pads": p, "value": token(v, self.dtype)}, spec_ins=[0])
            b.init_protos[-1] = numpy_helper.from_array(np.array(v, self.dtype), b.init_protos[-1].name)
            xs = [self.arr(ish, True) for _ in range(2)]
        else:
            o = 0
            xs = [self.arr(ish, True) for _ in range(r.randint(1, 3))]
        for _ in range(r.choice([0, 1, 2]) + (k == "move")):
            for _try in range(20):
                op = r.choice(MOVES)
                try:
                    if op == "Concat":
                        v = const(b.shape(o)) if r.random() < 0.6 else r.choice([v for v in range(len(b.name_of)) if not b.is_init[v]])
                        o = OPS["Concat"](b, o, [v])
                    else:
                        o = OPS[op](b, o)
                        if op == "Pad":
                            z = b.nodes[-1]["a"]
                            z["value"] = token(float(z["value"]), self.dtype)
                    break
                except Reject:
                    continue
        if not b.nodes:
            raise Reject("empty")
        return b, o, [np.asarray(x, self.dtype).reshape(ish) for x in xs]


def text_line(rng, x, hexa: bool, dtype, dialect: str) -> str:
    """A sample as a line of a text file."""
    out = []
    for v in x.flatten():
        v = float(v)
        if dialect == "json":
            out.append(json.dumps(v.hex()) if hexa else json.dumps(v))
        else:
            out.append(v.hex() if rng.random() < 0.5 else repr(v))
    return "[" + ", ".join(out) + "]" if dialect == "json" else " ".join(out)


def read_out(p: Path, dtype) -> list[list[str]]:
    r = []
    for l in p.read_text().splitlines():
        if l.strip():
            r.append([token(float.fromhex(w), dtype) for w in l.split()])
    return r


def observe(i: int):
    import acetone_nnet as A
    rng = random.Random(f"bits-{i}-{seed()}")
    for _ in range(50):
        dtype = rng.choice([np.float32, np.float32, np.float64])
        h = Head(HEADS[i % len(HEADS)], rng, dtype)
        try:
            b, o, xs = h.build()
            break
        except Reject:
            continue
    else:
        return None
    case = b.case(f"bits-{i}", o)
    for j, a in h.inits.items():
        case["inits"][j]["d"] = [token(v, dtype) for v in a.flatten()]
    names = [n for n, is_init in zip(b.name_of, b.is_init) if is_init]
    for j, p in enumerate(b.init_protos):
        if p.name in names:
            k = names.index(p.name)
            b.init_protos[j] = numpy_helper.from_array(h.inits[k].astype(dtype), p.name)
    case["tok"] = {n: token(v, dtype) for n, v in
                   (("zero", 0.0), ("nzero", -0.0), ("one", 1.0), ("none", -1.0), ("inf", np.inf), ("ninf", -np.inf))}
    case["samples"] = [[token(float(v), dtype) for v in x.flatten()] for x in xs]
    model = b.model(o)
    d = Path(tempfile.mkdtemp(prefix="acv-run-", dir="/tmp"))
    form = rng.choice(["array", "array", "flat", "wide", "file", "file", "external", "random" if h.kind == "move" else "array",
                      "drawn" if h.kind == "move" else "array"])
    kw = {"to_hex": rng.random() < 0.6, "bin_dataset": rng.random() < 0.4, "optimization": rng.random() < 0.3}
    if rng.random() < 0.5:
        kw["versions"] = {"Conv2D": rng.choice(conv_variants())}
    nb, data = len(xs), None
    arr = np.array(xs, dtype)
    chans = {c: ["generate", 0, [], ""] for c in ("c", "python")}
    try:
        try:
            if form == "array":
                data = arr.reshape(rng.choice([arr.shape, (nb, 1, -1)]))
            elif form == "flat":
                data = arr.reshape(nb, -1)
            elif form == "wide":
                data = arr.astype(np.float64)
            elif form == "file":
                data = d / "set.txt"
                more = rng.choice([0, 0, 2])
                hexa = kw["to_hex"] and rng.random() < 0.6
                rows = [text_line(rng, x, hexa, dtype, "json") for x in [*xs, *[arr[0]] * more]]
                data.write_text("\n".join(rows) + "\n")
                data = rng.choice([data, str(data)])
            elif form == "external":
                kw |= {"external_input": True, "to_hex": True}
                (d / "in.txt").write_text("\n".join(text_line(rng, x, True, dtype, "scanf") for x in xs) + "\n")
            elif form in ("random", "drawn"):
                nb = rng.randint(1, 3)
            with quiet():
                g = A.CodeGenerator(file=model, function_name="net_exe", nb_tests=rng.choice([nb, str(nb)] + ([0, 1, nb + 3] if form in ("array", "flat", "wide") else [])), test_dataset=data, **kw)
                if form == "drawn":
                    drawn = g.generate_dataset()
                    case["samples"] = [[token(float(v), dtype) for v in x.flatten()] for x in drawn]
                elif form == "random":
                    case["samples"] = [[token(float(v), dtype) for v in np.asarray(x).flatten()] for x in g.test_dataset]
                g.generate_c_files(str(d / "c"))
            chans["c"][0] = "compile"
            if not kw["to_hex"]:
                (d / "c" / "main.c").write_text(PROBE % {"T": "float" if dtype == np.float32 else "double"})
            p = subprocess.run(["make", "-s", "net_exe", "CFLAGS=" + " ".join(CFLAGS)], cwd=d / "c", capture_output=True, text=True, timeout=60)
            if p.returncode == 0:
                chans["c"][0] = "run"
                q = subprocess.run(["./net_exe", "out.txt", "../in.txt"], cwd=d / "c", capture_output=True, text=True, timeout=60)
                if q.returncode == 0:
                    out = read_out(d / "c" / "out.txt", dtype)
                    chans["c"][:3] = ["ok", len(out), out]
            else:
                chans["c"][3] = p.stderr[-400:]
            if "python" in chans:
                chans["python"][0] = "python"
                with quiet(), np.errstate(all="ignore"):
                    if form == "external":
                        given = rng.choice([arr, arr.reshape(nb, -1), "file", "file"])
                        if isinstance(given, str):
                            given = d / "given.txt"
                            given.write_text("\n".join(text_line(rng, x, True, dtype, "json") for x in xs) + "\n")
                            given = rng.choice([given, str(given)])
                        g.compute_inference(str(d), given)
                    else:
                        g.compute_inference(str(d))
                txt = (d / "output_python.txt").read_text()
                if not kw["to_hex"]:
                    out = [[token(float(w), dtype) for w in l.split()] for l in txt.splitlines() if l.strip()]
                else:
                    out = read_out(d / "output_python.txt", dtype)
                chans["python"][:3] = ["ok", len(out), out]
        except Exception as e:  # noqa: BLE001
            for c in chans.values():
                if c[0] != "ok":
                    c[3] = f"{type(e).__name__}: {e}"[:300]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    n = len(case["samples"])
    case["form"] = f"{h.kind} {form} {dtype.__name__} {kw}"
    case["channels"] = [{"name": c, "status": v[0], "count": v[1], "out": v[2] + [[]] * (n - len(v[2])), "msg": v[3]}
                        for c, v in chans.items()]
    return case


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("random value-moving networks and neutral products with arbitrary finite, infinite, NaN and denormal values, in float and "
                "double, text in hexadecimal or decimal, binary, dataset arrays, text files and run-time files")
    n = 700 if quick else 6000
    cases = []
    for a, (st, v) in zip(range(n), pool_map(observe, list(range(n)), 90)):
        if st == "error":
            raise MachineryError(f"{a}: {v}")
        if st != "ok":
            chk.violation(f"bits-{a}: {st} {v}", {"case": a})
        elif v is not None:
            cases.append(v)
    r = tlc_trace("ValueTrace", [{k: ([{x: y for x, y in ch.items() if x != "msg"} for ch in v] if k == "channels" else v)
                                  for k, v in c.items() if k not in ("form", "sc", "tol")} for c in cases],
                  cost=lambda c: 5 + sum(len(x) for x in c["samples"]) * len(c["nodes"]))
    chk.add_states(r)
    by = {c["id"]: c for c in cases}
    for c in cases:
        chk.add_case(json.dumps([c["nodes"], c["form"]]))
        chk.traces += len(c["channels"]) * len(c["samples"]) - 1
        if len(chk.samples) < 3:
            chk.samples.append({"id": c["id"], "form": c["form"], "nodes": [x["op"] for x in c["nodes"]], "input": c["samples"][0][:6],
                                "observed": {ch["name"]: ch["out"][0][:6] for ch in c["channels"]}})
    seen = set()
    for x in r["bad"]:
        c = by[x["case"]]
        if x["clause"] == "idle":
            raise MachineryError(f"{x['case']} says nothing: {c['form']} {[n['op'] for n in c['nodes']]}")
        if (x["case"], x["channel"]) in seen:
            continue
        seen.add((x["case"], x["channel"]))
        msg = next(ch["msg"] for ch in c["channels"] if ch["name"] == x["channel"])
        chk.violation(f"{x['case']} {x['channel']}: {x['clause']} {x['arg']} got {x['got']} want {x['want']} in {c['form']} "
                      f"ops={[n['op'] for n in c['nodes']]} {msg}", {"verdict": x, "case": c})
