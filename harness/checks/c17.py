"""C17: a network of matrix products and additions, quantized by a target description, computes in fixed point
what the description says - in the Python reference and in the generated program.

The specification (NetTrace with the operators Quantize, Shift and Wrap of OpsExt) is given the model's
parameters as exact binary fractions and the formats of the description; it derives the stored integers, the
accumulations, the rescaling shifts and the truncations by itself.
"""
from __future__ import annotations

import contextlib
import io
import json
import os
import random
import shutil
import subprocess
import tempfile
from pathlib import Path

import numpy as np
from onnx import TensorProto, helper, numpy_helper

from acv_core import Check, MachineryError, seed, tier, tlc_model
from acv_nets import Reject
from acv_run import CFLAGS, execute, read_lines
from checks.net import run_cases

# (C type, numpy type, bits, accumulator's C type, numpy type)
KINDS = [("short", "int16", 16, "int", "int32"), ("signed char", "int8", 8, "int", "int32"), ("int", "int32", 32, "int", "int32"),
         ("int16_t", "int16", 16, "int32_t", "int32"), ("int", "int32", 32, "long long", "int64"),
         ("signed char", "int8", 8, "short", "int16")]
TARGETS = ["AVX512VNNI"]     # the other target is in the assembly language of another processor
LIM = 2**31 - 1
SEEN = 2**25            # results are recorded in sixteenths


class Q:
    """A quantized network: the ONNX model in real numbers, the target description and the specification's case."""

    def __init__(self, r: random.Random) -> None:
        self.r = r
        self.kind = r.choice(KINDS)
        self.ct, self.pt, self.bits, self.tct, self.tpt = self.kind
        self.acc = 15 if self.tpt == "int16" else 31
        self.amp = {8: 100, 16: r.choice([30, 1000, 30000]), 32: 2000}[self.bits]
        if self.acc == 15:
            self.amp = 30
        self.opt = r.random() < 0.4
        rank = r.choice([2, 2, 3, 4])
        self.ish = [1] + [r.randint(1, 4) for _ in range(rank - 1)]
        if rank == 4:
            self.ish[1] = r.choice([1, 1, 2])
        self.m0 = r.randint(0, self.bits - 1)
        self.layers = {"X": {"out": self.fmt(self.m0)}}
        n = int(np.prod(self.ish))
        self.samples = [[r.randint(-self.amp, self.amp) for _ in range(n)] for _ in range(2)]
        if r.random() < 0.3:
            self.samples[0][0] = r.choice([-1, 1]) * (2**(self.bits - 1) - 1 if self.bits < 32 and self.acc > 15 else 1)
        self.val = [[np.array(s, dtype=object).reshape(self.ish) for s in self.samples]]
        self.m = [self.m0]
        self.ids = [("x", 0)]                # where the specification finds the value
        self.name = ["X"]
        self.inits, self.nodes, self.protos, self.consts = [], [], [], []
        self.used = [0]

    def fmt(self, m):
        return f"Q{self.bits - 1 - m}.{m}"

    def const(self, shape, m, amp=None):
        """A parameter of the model, stored with m fraction bits: its value id."""
        r = self.r
        amp = amp or self.amp
        k = m + r.choice([0, 1, 3])                  # the model's own value has more fraction bits
        v = np.array([r.randint(-amp, amp) for _ in range(int(np.prod(shape)))], dtype=object).reshape(shape)
        if k > m:
            # rounded to nearest: any remainder, halfway ones included
            v = v * 2**(k - m) + np.array([r.randint(-2**(k - m - 1), 2**(k - m - 1)) for _ in range(v.size)], dtype=object).reshape(shape)
        f = np.array([float(x) / 2**k for x in v.flatten()]).reshape(shape)
        f32 = f.astype(np.float32)
        if not np.array_equal(f32.astype(np.float64), f):
            raise Reject("not a single precision number")
        c = len(self.consts)
        name = f"W{c}"
        self.consts.append(numpy_helper.from_array(f32, name))
        self.inits.append({"s": list(shape), "d": [int(x) for x in v.flatten()]})
        q = np.array([self.round(int(x), k - m) for x in v.flatten()], dtype=object).reshape(shape)
        if any(abs(int(x)) >= 2**(self.bits - 1) for x in q.flatten()):
            raise Reject("parameter does not fit")
        self.layers[name] = {"out": self.fmt(m)}
        self.spec("Quantize", {"m": m, "k": k, "bits": self.bits}, [("i", c)])
        return self.value([q] * len(self.samples), m, name)

    @staticmethod
    def round(v, k):
        if k == 0:
            return v
        q, rem, h = v >> k, v % (1 << k), 1 << (k - 1)
        return q if rem < h else q + 1 if rem > h else q + (q & 1)

    def wrap(self, a):
        b = self.bits
        return np.array([((int(x) + 2**(b - 1)) % 2**b) - 2**(b - 1) for x in a.flatten()], dtype=object).reshape(a.shape)

    def spec(self, op, a, ins):
        self.nodes.append({"op": op, "a": a or {"z": 0}, "ins": ins})
        self.last = ("n", len(self.nodes) - 1)

    def value(self, vals, m, name):
        for v in vals:
            if v.size == 0 or v.size > 100:
                raise Reject("size")
        self.val.append(vals)
        self.m.append(m)
        self.ids.append(self.last)
        self.name.append(name)
        self.used.append(0)
        return len(self.val) - 1

    def emit(self, op, ins, **attrs):
        k = len(self.protos)
        out = f"t{k}"
        self.protos.append(helper.make_node(op, [self.name[i] if isinstance(i, int) else i for i in ins], [out], name=f"n{k}_{op}", **attrs))
        for i in ins:
            if isinstance(i, int):
                self.used[i] += 1
        return out, f"n{k}_{op}"

    # ---- layers
    def matmul(self, x):
        r = self.r
        s = list(self.val[x][0].shape)
        left = r.random() < 0.2
        # the parameter's shape is that of a matrix, or of one per channel
        head = [1] * (len(s) - 2) if len(s) < 4 or r.random() < 0.7 else s[1:2]
        head = [1] * (len(s) - 2 - len(head)) + head
        n = r.randint(1, 4)
        mw = r.randint(0, self.bits - 1)
        if left:
            sh = head + [n, s[-2]]
        else:
            sh = ([] if r.random() < 0.7 else head) + [s[-1], n]
        w = self.const(sh, mw)
        ins = [w, x] if left else [x, w]
        vs = []
        for i in range(len(self.samples)):
            a, b = self.val[ins[0]][i], self.val[ins[1]][i]
            bound = np.matmul(np.abs(a), np.abs(b))
            if any(int(t) > 2**self.acc - 1 for t in bound.flatten()):
                raise Reject("accumulator overflows")
            vs.append(np.matmul(a, b))
        mo = r.randint(0, self.bits - 1) if r.random() < 0.6 else max(0, self.m[x] + mw - r.randint(0, self.bits))
        mo = min(mo, self.bits - 1 + 2)
        sft = max(0, self.m[x] + mw - mo)
        if sft >= self.acc:
            raise Reject("shift")
        out, nm = self.emit("MatMul", ins)
        # the description names the format of the data and that of the parameters, whichever side they are on
        self.layers[nm] = {"in": self.fmt(self.m[x]), "params": self.fmt(mw), "out": self.fmt(mo)}
        self.spec("MatMul", {}, [self.ids[i] for i in ins])
        raw = self.last
        self.spec("Shift", {"min": self.m[x], "mpar": mw, "mout": mo, "bits": self.bits}, [raw])
        return self.value([self.wrap(np.array([int(t) >> sft for t in v.flatten()], dtype=object).reshape(v.shape)) for v in vs],
                          self.m[x] + mw - sft, out)

    def add(self, x, y=None):
        r = self.r
        s = list(self.val[x][0].shape)
        m = self.m[x]
        if y is None:
            t = [d if r.random() < 0.6 else 1 for d in s]
            if r.random() < 0.3:
                t = t[1:]
            if m > self.bits - 1 + 8:
                raise Reject("format")
            y = self.const(t, m, min(self.amp * 2, 2**(self.bits - 1) - 1))
        elif self.m[y] != m:
            raise Reject("formats differ")
        ins = [x, y] if r.random() < 0.6 else [y, x]
        vs = [np.asarray(self.val[ins[0]][i] + self.val[ins[1]][i]) for i in range(len(self.samples))]
        if list(vs[0].shape) != s or any(abs(int(t)) > 2**self.acc - 1 for v in vs for t in v.flatten()):
            raise Reject("sum")
        if self.opt and any(not np.array_equal(self.wrap(v), v) for v in vs):
            raise Reject("a sum outside of its format may be rectified before or after it is stored")
        out, nm = self.emit("Add", ins)
        self.layers[nm] = {"in": self.fmt(m), "params": self.fmt(m), "out": self.fmt(m)}
        self.spec("Add", {}, [self.ids[i] for i in ins])
        raw = self.last
        self.spec("Wrap", {"bits": self.bits}, [raw])
        return self.value([self.wrap(v) for v in vs], m, out)

    def relu(self, x):
        out, _ = self.emit("Relu", [x])
        self.spec("Relu", {}, [self.ids[x]])
        return self.value([np.maximum(v, 0) for v in self.val[x]], self.m[x], out)

    def transpose(self, x):
        s = self.val[x][0].shape
        if len(s) != 4:
            raise Reject("rank")
        p = [0, *self.r.sample([1, 2, 3], 3)]
        out, _ = self.emit("Transpose", [x], perm=p)
        self.spec("Transpose", {"perm": p}, [self.ids[x]])
        return self.value([v.transpose(p) for v in self.val[x]], self.m[x], out)

    def flatten(self, x):
        if self.val[x][0].shape[0] != 1:
            raise Reject("several rows")
        out, _ = self.emit("Flatten", [x])
        n = self.val[x][0].size
        self.spec("Flatten", {"shape": [1, n]}, [self.ids[x]])
        return self.value([v.reshape(1, n) for v in self.val[x]], self.m[x], out)

    def concat(self, x, y):
        s, t = self.val[x][0].shape, self.val[y][0].shape
        ax = self.r.randint(1, len(s) - 1)
        if len(s) not in (2, 4) or len(s) != len(t) or self.m[x] != self.m[y] or any(s[k] != t[k] for k in range(len(s)) if k != ax):
            raise Reject("concat")
        out, _ = self.emit("Concat", [x, y], axis=ax)
        self.spec("Concat", {"axis": ax}, [self.ids[x], self.ids[y]])
        return self.value([np.concatenate([a, b], ax) for a, b in zip(self.val[x], self.val[y])], self.m[x], out)

    def build(self):
        r = self.r
        x = 0
        live = [0]
        for _ in range(r.choice([1, 2, 3, 4, 6])):
            op = r.choices(["matmul", "add", "relu", "transpose", "flatten", "add2", "concat"], [8, 6, 4, 2, 1, 4, 2])[0]
            for _t in range(6):
                keep = (len(self.consts), len(self.nodes), len(self.protos), len(self.val), dict(self.layers), list(self.used))
                try:
                    src = live[-1] if r.random() < 0.8 else r.choice(live)
                    if op in ("add2", "concat"):
                        if len(live) < 2:
                            raise Reject("one value")
                        o = r.choice(live)
                        v = self.add(src, o) if op == "add2" else self.concat(src, o)
                    else:
                        v = getattr(self, op)(src)
                    live.append(v)
                    break
                except (Reject, ValueError):
                    nc, nn, npr, nv, self.layers, self.used = keep
                    del self.consts[nc:], self.inits[nc:], self.nodes[nn:], self.protos[npr:]
                    del self.val[nv:], self.m[nv:], self.ids[nv:], self.name[nv:]
        x = live[-1]
        if not any(p.op_type in ("MatMul", "Add") for p in self.protos):
            raise Reject("nothing quantized")
        # values nobody reads are not part of a model with one output
        need = {self.name[x]}
        for p in reversed(self.protos):
            if p.output[0] in need:
                need |= set(p.input)
            else:
                raise Reject("dangling")
        if any(abs(int(t)) >= SEEN for v in self.val[x] for t in v.flatten()):
            raise Reject("range")
        return x

    def model(self, o):
        g = helper.make_graph(self.protos, "net", [helper.make_tensor_value_info("X", TensorProto.FLOAT, self.ish)],
                              [helper.make_tensor_value_info(self.name[o], TensorProto.FLOAT, list(self.val[o][0].shape))],
                              initializer=self.consts)
        mod = helper.make_model(g, opset_imports=[helper.make_opsetid("", 13)])
        mod.ir_version = 8
        return mod

    def case(self, cid, o):
        def num(t):
            return 1 if t[0] == "x" else 2 + t[1] if t[0] == "i" else 2 + len(self.inits) + t[1]
        return {"id": cid, "sc": 1, "tol": 0, "ishape": self.ish, "samples": self.samples, "inits": self.inits,
                "nodes": [{**n, "ins": [num(t) for t in n["ins"]]} for n in self.nodes], "outv": num(self.ids[o]), "channels": []}

    def target(self):
        r = self.r
        t = {"name": "target", "quantization": {"dtype": self.ct, "pydtype": self.pt, "temp_dtype": self.tct, "temp_pydtype": self.tpt,
                                                "layers": self.layers}}
        if r.random() < 0.5:
            t["cflags"] = "-O1"
        return t


def channels(q: Q, o: int, case: dict, name: str, kw: dict, ext: bool, how: str) -> list[dict]:
    """Python reference, program with the samples inside, program reading them from a file."""
    import acetone_nnet as A
    d = Path(tempfile.mkdtemp(prefix="acv-q-", dir="/tmp"))
    n = len(case["samples"])
    res = []
    cwd = os.getcwd()

    def put(ch, st, msg, out):
        res.append({"name": ch, "status": st, "msg": str(msg)[-500:], "lay": "as_is", "out": out or [[]] * n})
    try:
        os.chdir(d)
        (d / f"{name}.json").write_text(json.dumps(q.target()))
        data = np.array(case["samples"], dtype=q.pt).reshape(n, *q.ish)
        for e in ([False, True] if ext else [False]):
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
                    g = A.CodeGenerator(file=q.model(o), function_name="net_exe", nb_tests=n, test_dataset=data, target=name,
                                        external_input=e, **kw)
            except Exception as ex:  # noqa: BLE001
                put("program" if e else "python", "import", f"{type(ex).__name__}: {ex}", None)
                continue
            if not e:
                try:
                    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
                        g.compute_inference(str(d))
                    put("python", "ok", "", read_lines(d / "output_python.txt", 1, n))
                except Exception as ex:  # noqa: BLE001
                    put("python", "python", f"{type(ex).__name__}: {ex}", None)
            cd = d / f"c{int(e)}"
            ch = "c-file" if e else "c"
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    g.generate_c_files(str(cd))
                if "_t" in q.ct:    # fixed width names need a header the user's compiler is told to include
                    extra = ["-include", "stdint.h"]
                else:
                    extra = []
                if how == "make" or kw.get("bin_dataset"):
                    p = subprocess.run(["make", "-s", "net_exe", *(["CFLAGS=" + " ".join([*CFLAGS, *extra])] if extra else [])], cwd=cd,
                                       capture_output=True, text=True, timeout=60)
                else:
                    if e:   # the reading of the values must not write beyond them
                        extra += ["-fsanitize=address"]
                    p = subprocess.run(["gcc", *CFLAGS, *extra, "-o", "net_exe", *sorted(f.name for f in cd.glob("*.c")), "-lm"], cwd=cd,
                                       capture_output=True, text=True, timeout=60)
                if p.returncode:
                    put(ch, "compile", p.stderr, None)
                    continue
                if e:
                    (cd / "in.txt").write_text("\n".join(" ".join(str(v) for v in s) for s in case["samples"]) + "\n")
                    p = subprocess.run(["./net_exe", "output_c.txt", "in.txt"], cwd=cd, capture_output=True, text=True, timeout=60,
                                       env={**os.environ, "ASAN_OPTIONS": "detect_leaks=0"})
                    st, msg = ("ok", "") if p.returncode == 0 else ("run", p.stderr or p.returncode)
                else:
                    st, msg = execute(cd, "net_exe")
                put(ch, st, msg, read_lines(cd / "output_c.txt", 1, n) if st == "ok" else None)
            except Exception as ex:  # noqa: BLE001
                put(ch, "generate", f"{type(ex).__name__}: {ex}", None)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return res


def make(i):
    r = random.Random(f"quant-{i}-{seed()}")
    for _ in range(400):
        try:
            q = Q(r)
            o = q.build()
            break
        except Reject:
            continue
    else:
        return None
    case = q.case(f"quant-{i}", o)
    if r.random() < 0.15:
        # a description that says nothing, or nothing readable, of a parameter or of a product
        names = [k for k in q.layers if k[0] == "W" or "MatMul" in k]
        if names:
            k = r.choice(names)
            if r.random() < 0.6:
                del q.layers[k]
            else:
                # (the format of a parameter is its "out", that of a product its three entries)
                e = r.choice(["in", "params", "out"] if k[0] != "W" else ["out"])
                q.layers[k][e] = r.choice(["Q3", "q1.3", "Q.4", "7", "Q1.x", ""])
            case["refuse"] = 2
    kw = {}
    if q.opt:
        kw["optimization"] = True
    ext = r.random() < 0.3
    if r.random() < 0.3 and not ext:
        kw["bin_dataset"] = True
    how = "make" if r.random() < 0.2 else "gcc"
    case["channels"] = channels(q, o, case, r.choice(TARGETS), kw, ext, how)

    class B:
        pass
    b = B()
    b.case = lambda cid, out: case
    return b, o, case["id"], {"_custom": True}


def run(chk: Check) -> None:
    m = tlc_model("Quant", "Quant.cfg" if tier() != "thorough" else "Quant4.cfg")
    if not m["ok"]:
        raise MachineryError("Quant: the arithmetic doesn't hold\n" + m["out"][-1500:])
    chk.add_states(m)
    if tlc_model("Quant", "QuantCut.cfg")["ok"]:
        raise MachineryError("QuantCut.cfg: the negative control passes")
    n = 260 if tier() != "thorough" else 4000
    run_cases(chk, list(range(n)), make, channels=(), limit=120, label="")
    chk.rule = "NetTrace: every stored integer of the output is the one fixed-point arithmetic of the declared formats gives"
    chk.cov = {"networks": n}
    chk.assumptions = ["accumulators stay within their type", "integer types of the generated program: 8, 16 and 32 bits"]
