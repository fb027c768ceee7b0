"""C12: a network means the same whichever model format it is written in (NNET, Keras JSON, PyTorch)."""
from __future__ import annotations

import contextlib
import io
import json
import random
import shutil
import tempfile
from pathlib import Path

import numpy as np

from acv_core import Check, seed, tier
from acv_nets import Net, Reject, ints
from acv_run import full_run
from checks.c07 import conv_variants
from checks.net import run_cases


# ------------------------------------------------------------------ NNET
def nnet_case(i: int):
    r = random.Random(f"nnet-{i}-{seed()}")
    for _ in range(200):
        norm = r.random() < 0.5
        n = r.randint(1, 6)
        wide = norm and r.random() < 0.3     # bounds and means of eight digits
        b = Net(r, [1, n], 256 if norm and not wide else r.choice([1, 256]) if not wide else 1, 3, -6, 6)
        sizes = [n] + [r.randint(1, 6) for _ in range(r.randint(1, 4))]
        f = ["// net", "// header"][:r.randint(0, 2)]
        f += [f"{len(sizes) - 1},{n},{sizes[-1]},{max(sizes)},", "".join(f"{s}," for s in sizes), "0,"]
        mins, maxs = [r.randint(-5, 0) for _ in range(n)], [r.randint(1, 5) for _ in range(n)]
        means, ranges = [r.randint(-2, 2) for _ in range(n + 1)], [r.choice([0.5, 1, 2, 4]) for _ in range(n + 1)]
        if wide:
            b.lim = 2**24
            means = [r.randint(-2**23, 2**23) for _ in range(n + 1)]
            mins, maxs = [v - r.randint(0, 5) for v in means[:n]], [v + r.randint(1, 5) for v in means[:n]]
            ranges = [1] * (n + 1)
            b.samples = [[v + r.randint(-6, 6) for v in means[:n]] for _ in b.samples]
            b.val = [[np.array([q], dtype=np.float64) for q in b.samples]]
        f += ["".join(f"{v:.6f}," if r.random() < 0.5 else f"{v}," for v in l) for l in (mins, maxs, means, ranges)]
        try:
            x = 0
            if norm:
                def row(l):
                    return b.init(np.array([[int(v * b.sc) for v in l]]))
                x = b.node("Max", [x, row(mins)], {}, None, {}, lim=2**24)
                x = b.node("Min", [x, row(maxs)], {}, None, {}, lim=2**24)
                x = b.node("Sub", [x, row(means[:n])], {}, None, {}, lim=2**24)
                if not wide:        # a quotient is approximate, and eight-digit results have to be exact
                    x = b.node("Div", [x, row(ranges[:n])], {}, None, {}, lim=2**24)
            for k in range(len(sizes) - 1):
                w = ints(r, [sizes[k + 1], sizes[k]], -2, 2, b.sc)
                bi = ints(r, [sizes[k + 1]], -3, 3, b.sc)
                f += ["".join(f"{v / b.sc:.5e}," for v in l) for l in w] + [f"{v / b.sc:.5e}," for v in bi]
                x = b.node("Gemm", [x, b.init(w), b.init(bi)], {"transB": 1}, None,
                           {"tA": 0, "tB": 1, "an": 1, "ad": 1, "bn": 1, "bd": 1})
                if k + 2 < len(sizes):
                    x = b.node("Relu", [x], {}, None, {})
            if norm:
                x = b.node("Mul", [x, b.init(np.full([1, 1], int(ranges[-1] * b.sc)))], {}, None, {}, lim=2**24)
                x = b.node("Add", [x, b.init(np.full([1, 1], int(means[-1] * b.sc)))], {}, None, {}, lim=2**24)
        except Reject:
            continue
        return b, x, "\n".join(f) + "\n", {"normalize": norm}
    return None


# ------------------------------------------------------------------ Keras JSON
ACTS = ["linear", "linear", "relu", "relu", "leaky_relu", "tanh", "sigmoid", "softmax"]


class Keras:
    """A Keras model: the layers of its JSON form, and what each means."""

    def __init__(self, r, i, sc=None, rank=None, first=False) -> None:
        self.r = r
        self.sc = sc or r.choice([1, 256, 1024])
        self.f64 = r.random() < 0.2
        self.first = first
        if rank == 2 or rank is None and r.random() < 0.25:
            self.hwc, ish = False, [1, r.randint(1, 6)]
        elif rank is None and not first and r.random() < 0.12:
            self.hwc, ish = False, [1, r.randint(1, 4), r.randint(1, 4)]
        else:
            self.hwc, ish = not first, [1, r.randint(2, 6), r.randint(2, 6), r.randint(1, 3)]
            if first:
                ish = [1, ish[3], ish[1], ish[2]]
        b = self.b = Net(r, ish, self.sc, 2, -3 if self.sc < 1024 else -2, 3 if self.sc < 1024 else 2)
        self.val = [b.node("Transpose", [0], {"perm": [0, 3, 1, 2]}, None, {"perm": [0, 3, 1, 2]}) if self.hwc else 0]
        self.layers = []
        self.gaps = r.random() < 0.15        # numbers of layers which don't follow each other
        self.num = [0]
        self.used = set()
        self.noisy = set()
        n = int(np.prod(ish))
        self.add("InputLayer", self.val[0], [], {"dtype": "float64" if self.f64 else "float32", "input_shape": self.ksh(self.val[0]),
                                               "size": n, "sparse": False})

    def ksh(self, v):
        return [None, *self.b.shape(v)[1:]]

    def add(self, cls, v, prev, cfg, **params):
        c = {"name": f"{cls.lower()}_{len(self.layers)}", **cfg}
        if prev:
            c["dtype"] = "float32"
            self.num.append(self.num[-1] + (r.randint(1, 3) if (r := self.r) and self.gaps else 1))
            c["idx"] = self.num[-1]
            c["size"] = int(np.prod(self.b.shape(v)))
            ins = [self.ksh(self.val[p]) for p in prev]
            c["input_shape"] = ins if cls in MERGES else ins[0]
            c["output_shape"] = self.ksh(v)
            c["prev_layer_idx"] = [self.num[p] for p in prev]
            self.val.append(v)
            self.used |= set(prev)
        self.layers.append({"class_name": cls, "config": c, **params})

    def act(self, v, allow_softmax=True):
        r, b = self.r, self.b
        a = r.choice(ACTS)
        if a == "softmax" and (not allow_softmax or self.sc < 1024):
            a = "linear"
        if allow_softmax and self.sc == 1024 and r.random() < 0.35:
            a = "softmax"
        if a in ("tanh", "sigmoid") and (self.sc < 1024 or max(np.abs(x).max() for x in b.val[v]) > 60):
            a = "relu"
        if a == "leaky_relu" and self.sc == 1:
            a = "relu"
        if a in ("tanh", "sigmoid"):
            v = b.node(a.capitalize(), [v], {}, None, {})
        elif a == "relu":
            v = b.node("Relu", [v], {}, None, {})
        elif a == "leaky_relu":
            v = b.node("LeakyRelu", [v], {"alpha": 0.2}, None, {"an": 1, "ad": 5})
        elif a == "softmax":
            v = b.node("Softmax", [v], {"axis": 1}, None, {"axis": 1})
        return v, a

    def step(self, prev=None):
        r, b = self.r, self.b
        p = prev if prev is not None else (len(self.val) - 1 if r.random() < 0.6 else r.randrange(len(self.val)))
        x = self.val[p]
        s = b.shape(x)
        ops4 = ["Conv2D"] * 5 + ["AveragePooling2D", "MaxPooling2D", "MaxPooling2D", "Flatten", "ZeroPadding2D", "Merge", "Merge", "Merge",
                                 "Concatenate", "BatchNormalization", "Dropout"]
        ops2 = ["Dense"] * 4 + ["Merge", "Merge", "Concatenate", "BatchNormalization", "Dropout", "Reshape", "Reshape"]
        ops3 = ["Merge"] * 3 + ["Concatenate"] * 2 + ["Flatten", "Dropout"]
        op = r.choice({4: ops4, 3: ops3, 2: ops2}[len(s)])
        if op == "AveragePooling2D" and self.sc == 1 or op == "BatchNormalization" and self.sc < 256:
            raise Reject("scale")
        if op == "Dense":
            n, m = s[1], r.randint(1, 5)
            w, bi = ints(r, [n, m], -2, 2, self.sc), ints(r, [m], -3, 3, self.sc)
            v = b.node("Gemm", [x, b.init(w), b.init(bi)], {}, None, {"tA": 0, "tB": 0, "an": 1, "ad": 1, "bn": 1, "bd": 1})
            v, a = self.act(v)
            self.add(op, v, [p], {"units": m, "activation": a, "use_bias": True},
                     weights=(w / self.sc)[None, None].tolist(), biases=(bi / self.sc).tolist())
        elif op == "Conv2D":
            kh, kw, st, dil = r.randint(1, 3), r.randint(1, 3), r.choice([1, 1, 2]), r.choice([1, 1, 1, 2])
            if st > 1:
                dil = 1
            pad = r.choice(["same", "valid"])
            g = r.choice([d for d in (1, 1, 2, 3) if s[1] % d == 0])
            oc = g * r.randint(1, 3)
            if g > 1 and r.random() < 0.5:     # the kernels which have an implementation of their own
                kh = kw = r.choice([1, 3])
                st = dil = 1
            if pad == "valid" and ((kh - 1) * dil + 1 > s[2] or (kw - 1) * dil + 1 > s[3]):
                raise Reject("kernel")
            w, bi = ints(r, [oc, s[1] // g, kh, kw], -2, 2, self.sc), ints(r, [oc], -3, 3, self.sc)
            auto = "SAME_UPPER" if pad == "same" else "VALID"
            v = b.node("Conv", [x, b.init(w), b.init(bi)], {"kernel_shape": [kh, kw], "strides": [st, st], "dilations": [dil, dil],
                                                            "group": g, "auto_pad": auto}, None,
                       {"sh": st, "sw": st, "dh": dil, "dw": dil, "group": g, "auto": auto, "pads": [0] * 4})
            v, a = self.act(v, False)
            self.add(op, v, [p], {"filters": oc, "kernel_size": [kh, kw], "strides": [st, st], "padding": pad, "groups": g,
                                  "data_format": "channels_last", "dilation_rate": [dil, dil], "activation": a, "use_bias": True},
                     weights=(np.moveaxis(w, 0, -1) / self.sc).tolist(), biases=(bi / self.sc).tolist())
        elif op in ("AveragePooling2D", "MaxPooling2D"):
            k, st, pad = r.randint(1, 3), r.choice([1, 2, 3]), r.choice(["same", "valid"])
            if pad == "valid" and (k > s[2] or k > s[3]):
                raise Reject("kernel")
            auto = "SAME_UPPER" if pad == "same" else "VALID"
            v = b.node("AveragePool" if op[0] == "A" else "MaxPool", [x], {"kernel_shape": [k, k], "strides": [st, st], "auto_pad": auto},
                       None, {"kh": k, "kw": k, "sh": st, "sw": st, "auto": auto, "pads": [0] * 4, "cip": 0})
            self.add(op, v, [p], {"pool_size": [k, k], "padding": pad, "strides": [st, st], "data_format": "channels_last"})
        elif op == "Flatten":
            v = self.flat(x)
            self.add(op, v, [p], {"data_format": "channels_last"})
        elif op == "ZeroPadding2D":
            form = r.randint(0, 2)
            t, l = r.randint(0, 2), r.randint(0, 2)
            bo, ri = (t, l) if form < 2 else (r.randint(0, 2), r.randint(0, 2))
            if form == 0:
                l = ri = bo = t
            pads = [0, 0, t, l, 0, 0, bo, ri]
            v = b.node("Pad", [x, b.raw_init(np.array(pads, np.int64))], {"mode": "constant"}, None,
                       {"mode": "constant", "pads": pads, "value": 0}, spec_ins=[x])
            self.add(op, v, [p], {"padding": [t, [t, l], [[t, bo], [l, ri]]][form], "data_format": "channels_last"})
        elif op == "Merge":
            def like(t):
                """Whether a tensor can be merged with this one."""
                if len(t) == 2 and len(s) == 4:
                    return t[1] in (1, s[1])
                return len(t) == len(s) and all(u == w or 1 in (u, w) for u, w in zip(t, s))
            near = r.random() < 0.3
            same = [q for q in range(len(self.val)) if (b.shape(self.val[q]) == s or near and like(b.shape(self.val[q])))
                    and (q != p or r.random() < 0.1)]
            if not same:
                raise Reject("merge")
            op = r.choice(["Add", "Add", "Multiply", "Subtract", "Maximum", "Minimum"] + (["Average"] if self.sc > 1 else []))
            n = 1 if op in ("Multiply", "Subtract") else r.randint(1, min(2, len(same)))
            prev = [p, *r.sample(same, n)]
            r.shuffle(prev)
            o = {"Add": "Add", "Multiply": "Mul", "Subtract": "Sub", "Maximum": "Max", "Minimum": "Min", "Average": "Mean"}[op]
            vs = [self.wide(self.val[q], len(s)) for q in prev]
            if o == "Mul" and self.sc > 1 and np.prod([max(np.abs(w).max() for w in b.val[q]) * self.sc for q in vs]) > 2**30:
                raise Reject("mul overflow")
            if o == "Add" and len(vs) == 3:
                v = b.node("Add", [b.node("Add", vs[:2], {}, None, {}), vs[2]], {}, None, {})
            else:
                v = b.node(o, vs, {}, None, {})
            self.add(op, v, prev, {})
        elif op == "Concatenate":
            ax = r.randrange(1, len(s))
            ok = [q for q in range(len(self.val)) if len(b.shape(self.val[q])) == len(s) and
                  all(b.shape(self.val[q])[k] == s[k] for k in range(len(s)) if k != ax)]
            prev = [p, *r.sample(ok, min(len(ok), r.choice([1, 1, 2])))]
            r.shuffle(prev)
            v = b.node("Concat", [self.val[q] for q in prev], {"axis": ax}, None, {"axis": ax})
            kax = {1: 3, 2: 1, 3: 2}[ax] if len(s) == 4 else ax
            self.add(op, v, prev, {"axis": kax - len(s) if r.random() < 0.5 else kax})
        elif op == "BatchNormalization":
            c = s[1]
            g = np.array([r.choice([-2, -1, 1, 2, 3]) * self.sc // 2 for _ in range(c)])
            be, me = ints(r, [c], -3, 3, self.sc), ints(r, [c], -2, 2, self.sc)
            va = np.array([r.choice([self.sc // 4, self.sc, 4 * self.sc, 2 * self.sc]) for _ in range(c)])
            eps = r.choice([1, self.sc // 16, self.sc // 4])
            x4 = x
            if len(s) == 2:
                x4 = b.node("Reshape", [x, b.raw_init(np.array([1, c, 1, 1], np.int64))], {}, None, {"shape": [1, c, 1, 1]}, spec_ins=[x])
            v = b.node("BatchNormalization", [x4, *[b.init(q) for q in (g, be, me, va)]], {"epsilon": eps / self.sc}, None, {"eps": eps})
            if len(s) == 2:
                v = b.node("Reshape", [v, b.raw_init(np.array([1, c], np.int64))], {}, None, {"shape": [1, c]}, spec_ins=[v])
            q = {k: (w / self.sc).tolist() for k, w in (("gamma", g), ("beta", be), ("moving_mean", me), ("moving_var", va))}
            self.add(op, v, [p], {"axis": [len(s) - 1], "epsilon": eps / self.sc, "momentum": 0.99}, **q)
        elif op == "Dropout":
            self.add(op, x, [p], {"rate": 0.5})
        elif op == "Reshape":
            to = r.choice([[s[1]], [1, 1, s[1]], [1, 1, s[1]], [s[1], 1, 1], [1, s[1], 1]] if self.wider else [[s[1]]])
            if len(to) > 1:
                sh = [1, to[2], to[0], to[1]]
                x = b.node("Reshape", [x, b.raw_init(np.array(sh, np.int64))], {}, None, {"shape": sh}, spec_ins=[x])
            self.add(op, x, [p], {"target_shape": to})

    wider = True

    def flat(self, x):
        b = self.b
        if len(b.shape(x)) == 4 and not self.first:
            x = b.node("Transpose", [x], {"perm": [0, 2, 3, 1]}, None, {"perm": [0, 2, 3, 1]})
        return b.node("Flatten", [x], {}, None, {"shape": [1, int(np.prod(b.shape(x)[1:]))]})

    def wide(self, x, rank):
        """An operand of a merge, in that many dimensions."""
        b, s = self.b, self.b.shape(x)
        if len(s) == rank:
            return x
        sh = [1, s[1], 1, 1]
        return b.node("Reshape", [x, b.raw_init(np.array(sh, np.int64))], {}, None, {"shape": sh}, spec_ins=[x])

    def build(self):
        r, b = self.r, self.b
        want, tries = r.randint(1, 7), 0
        while len(self.layers) <= want and tries < 60:
            tries += 1
            keep = (len(b.init_protos), len(b.inits), len(b.nodes))
            try:
                self.step()
            except Reject:
                if len(b.nodes) != keep[2]:
                    raise
                b.drop_last_init(*keep[:2])
        loose = [q for q in range(len(self.val)) if q not in self.used and q]
        while len(loose) > 1:  # join the loose ends
            p, q = loose.pop(), loose.pop()
            for k in (p, q):
                if len(b.shape(self.val[k])) > 2:
                    v = self.flat(self.val[k])
                    self.add("Flatten", v, [k], {"data_format": "channels_last"})
                    p, q = (len(self.val) - 1 if z == k else z for z in (p, q))
            v = b.node("Concat", [self.val[p], self.val[q]], {"axis": 1}, None, {"axis": 1})
            self.add("Concatenate", v, [p, q], {"axis": -1})
            loose.append(len(self.val) - 1)
        if not loose or self.layers[-1]["class_name"] in ("Dropout", "Reshape") and len(self.layers) < 3:
            raise Reject("empty")
        return self.finish(self.val[loose[0]])

    def finish(self, v):
        b = self.b
        if len(b.shape(v)) == 4 and not self.first:
            v = b.node("Transpose", [v], {"perm": [0, 2, 3, 1]}, None, {"perm": [0, 2, 3, 1]})
        if not b.nodes or v == 0:
            raise Reject("empty")
        text = json.dumps({"class_name": "Functional", "config": {"name": "net", "data_format": "channels_first" if self.first else "channels_last",
                                                                "layers": self.layers},
                           "keras_version": "2", "backend": "tensorflow"})
        return b, v, text


MERGES = ("Add", "Multiply", "Subtract", "Maximum", "Minimum", "Average", "Concatenate")


def json_case(i: int):
    r = random.Random(f"json-{i}-{seed()}")
    for _ in range(400):
        try:
            k = Keras(r, i)
            b, v, text = k.build()
        except Reject:
            continue
        return b, v, text, {"dtype": np.float64 if k.f64 else np.float32}
    return None


# ------------------------------------------------------------------ PyTorch
class Torch:
    """A PyTorch module: a list of steps, and what each means."""

    menu = None         # the kinds of steps for each rank, if not all
    often = 0.25        # share of in-place operations

    def __init__(self, r, sc=None, ish=None) -> None:
        import torch
        self.t, self.r = torch, r
        self.sc = sc or r.choice([1, 256, 256])
        self.f64 = r.random() < 0.2
        self.dt = torch.float64 if self.f64 else torch.float32
        rank4 = r.random() < 0.85
        self.last = ish is None and rank4 and r.random() < 0.3      # channels_last input
        self.ish = ish or ([1, r.randint(1, 3), r.randint(2, 6), r.randint(2, 6)] if rank4 else [1, r.randint(1, 6)])
        if self.last:
            self.ish = [1, r.randint(2, 3), r.randint(2, 6), r.randint(2, 6)]
            s = self.ish
            b = self.b = Net(r, [1, s[2], s[3], s[1]], self.sc, 2, -3, 3)
            self.val = [b.node("Transpose", [0], {"perm": [0, 3, 1, 2]}, None, {"perm": [0, 3, 1, 2]})]
        else:
            b = self.b = Net(r, self.ish, self.sc, 2, -3, 3)
            self.val = [0]
        self.steps, self.mods, self.used, self.same = [], [], set(), [0]

    def emit(self, v, ins, f, mod=None, alias=None, inplace=False):
        """f(module, *tensors) -> tensor."""
        self.mods.append(mod)
        self.steps.append((f, ins))
        self.used |= set(ins)
        self.val.append(v)
        n = len(self.val) - 1
        self.same.append(n if alias is None else self.same[alias])
        if inplace:     # every name of that memory now has the new value
            root = self.same[ins[0]]
            for k in range(n):
                if self.same[k] == root:
                    s = self.b.shape(self.val[k])
                    self.val[k] = v if s == self.b.shape(v) else self.b.node("Reshape", [v, self.b.raw_init(np.array(s, np.int64))], {}, None,
                                                                             {"shape": s}, spec_ins=[v])
            self.same[n] = root

    def w(self, units):
        return self.t.tensor(np.asarray(units) / self.sc, dtype=self.dt)

    def step(self):
        t, r, b, F = self.t, self.r, self.b, self.t.nn.functional
        nn = t.nn
        p = len(self.val) - 1 if r.random() < 0.65 else r.randrange(len(self.val))
        x = self.val[p]
        if x is None:
            raise Reject("overwritten")
        s = b.shape(x)
        op = r.choice(self.menu[len(s)] if self.menu else ["conv"] * 4 + ["bn"] * 2 + ["act"] * 4 + ["add"] * 2 + ["cat", "drop", "flat", "pool", "pool", "gap"] if len(s) == 4 else
                      ["lin"] * 3 + ["act"] * 3 + ["add", "add", "cat", "bn", "drop"])
        ip = r.random() < self.often and self.same[p] != 0
        if op == "lin":
            n, m = s[1], r.randint(1, 5)
            w = ints(r, [m, n], -2, 2, self.sc)
            mod = nn.Linear(n, m, bias=r.random() < 0.7, dtype=self.dt)
            mod.weight.data = self.w(w)
            ins = [x, b.init(w)]
            if mod.bias is not None:
                bi = ints(r, [m], -3, 3, self.sc)
                mod.bias.data = self.w(bi)
                ins.append(b.init(bi))
            v = b.node("Gemm", ins, {"transB": 1}, None, {"tA": 0, "tB": 1, "an": 1, "ad": 1, "bn": 1, "bd": 1})
            self.emit(v, [p], (lambda m_, a: F.linear(a, bias=m_.bias, weight=m_.weight)) if r.random() < 0.3 else (lambda m_, a: m_(a)), mod)
        elif op == "conv":
            kh, kw, st, dil = r.randint(1, 3), r.randint(1, 3), r.choice([1, 1, 2]), r.choice([1, 1, 2])
            g = r.choice([d for d in (1, 1, 2, 3) if s[1] % d == 0])
            oc = g * r.randint(1, 3)
            pad = r.choice(["same", "valid", 0, 1, (r.randint(0, 2), r.randint(0, 2))])
            if g > 1 and r.random() < 0.5:
                kh = kw = r.choice([1, 3])
                st = dil = 1
            if pad == "same":
                if st > 1:
                    raise Reject("same")
                tot = [dil * (k - 1) for k in (kh, kw)]
                pads = [q // 2 for q in tot] + [q - q // 2 for q in tot]
            else:
                pads = [0] * 4 if pad == "valid" else [pad] * 4 if isinstance(pad, int) else [*pad, *pad]
            if (kh - 1) * dil + 1 > s[2] + pads[0] + pads[2] or (kw - 1) * dil + 1 > s[3] + pads[1] + pads[3]:
                raise Reject("kernel")
            w = ints(r, [oc, s[1] // g, kh, kw], -2, 2, self.sc)
            mod = nn.Conv2d(s[1], oc, (kh, kw), stride=st, padding=pad, dilation=dil, groups=g, bias=r.random() < 0.7, dtype=self.dt)
            mod.weight.data = self.w(w)
            ins = [x, b.init(w)]
            if mod.bias is not None:
                bi = ints(r, [oc], -3, 3, self.sc)
                mod.bias.data = self.w(bi)
                ins.append(b.init(bi))
            v = b.node("Conv", ins, {"kernel_shape": [kh, kw], "strides": [st, st], "dilations": [dil, dil], "group": g, "pads": pads}, None,
                       {"sh": st, "sw": st, "dh": dil, "dw": dil, "group": g, "auto": "NOTSET", "pads": pads})
            self.emit(v, [p], lambda m_, a: m_(a), mod)
        elif op == "bn":
            if self.sc < 256:
                raise Reject("scale")
            c = s[1]
            g = np.array([r.choice([-2, -1, 1, 2, 3]) * self.sc // 2 for _ in range(c)])
            be, me = ints(r, [c], -3, 3, self.sc), ints(r, [c], -2, 2, self.sc)
            va = np.array([r.choice([self.sc // 4, self.sc, 4 * self.sc, 2 * self.sc]) for _ in range(c)])
            eps = r.choice([1, self.sc // 16, self.sc // 4])
            affine = r.random() < 0.8
            if not affine:
                g, be = np.full(c, self.sc), np.zeros(c, int)
            mod = (nn.BatchNorm2d if len(s) == 4 else nn.BatchNorm1d)(c, eps=eps / self.sc, affine=affine, dtype=self.dt)
            mod.running_mean, mod.running_var = self.w(me), self.w(va)
            if affine:
                mod.weight.data, mod.bias.data = self.w(g), self.w(be)
            x4 = x
            if len(s) == 2:
                x4 = b.node("Reshape", [x, b.raw_init(np.array([1, c, 1, 1], np.int64))], {}, None, {"shape": [1, c, 1, 1]}, spec_ins=[x])
            v = b.node("BatchNormalization", [x4, *[b.init(q) for q in (g, be, me, va)]], {"epsilon": eps / self.sc}, None, {"eps": eps})
            if len(s) == 2:
                v = b.node("Reshape", [v, b.raw_init(np.array([1, c], np.int64))], {}, None, {"shape": [1, c]}, spec_ins=[v])
            self.emit(v, [p], lambda m_, a: m_(a), mod)
        elif op == "act":
            a = r.choice(["relu", "relu", "relu6", "hardtanh", "clamp", "leaky"])
            if a == "leaky" and self.sc == 1:
                a = "relu"
            if a == "relu":
                v = b.node("Relu", [x], {}, None, {})
                f = (lambda m_, z: F.relu(z, inplace=True)) if ip else r.choice([lambda m_, z: F.relu(z), lambda m_, z: t.relu(z), lambda m_, z: z.relu()])
            elif a == "leaky":
                an, ad = r.choice([(1, 2), (1, 4), (3, 4), (1, 100)])
                v = b.node("LeakyRelu", [x], {"alpha": an / ad}, None, {"an": an, "ad": ad})
                f = (lambda m_, z: F.leaky_relu(z, an / ad, inplace=ip)) if ad < 100 else (lambda m_, z: F.leaky_relu(z, inplace=ip))
            else:
                lo, hi = {"relu6": (0, 6)}.get(a) or r.choice([(-1, 1), (0, 4), (0, 2), (-3, 0), (1, 3)])
                haslo, hashi = (1, 1) if a != "clamp" else r.choice([(1, 1), (1, 0), (0, 1)])
                ins = [x, b.raw_init(np.array([lo], np.float32)) if haslo else "", b.raw_init(np.array([hi], np.float32)) if hashi else ""]
                v = b.node("Clip", ins, {}, None, {"haslo": haslo, "hashi": hashi, "lo": lo * self.sc, "hi": hi * self.sc}, spec_ins=[x])
                if a == "relu6":
                    f = lambda m_, z: F.relu6(z, inplace=ip)  # noqa: E731
                elif a == "hardtanh":
                    f = lambda m_, z: F.hardtanh(z, lo, hi, inplace=ip)  # noqa: E731
                else:
                    kw = {**({"min": lo} if haslo else {}), **({"max": hi} if hashi else {})}
                    f = (lambda m_, z: z.clamp_(**kw)) if ip else (lambda m_, z: t.clamp(z, **kw))
            self.emit(v, [p], f, inplace=ip)
        elif op == "add":
            same = [q for q in range(len(self.val)) if self.val[q] is not None and b.shape(self.val[q]) == s and q != p]
            if not same:
                raise Reject("add")
            q = r.choice(same)
            v = b.node("Add", [x, self.val[q]], {}, None, {})
            k = r.randint(0, 2) if ip else 0
            self.emit(v, [p, q], [lambda m_, y, z: y + z, lambda m_, y, z: y.add_(z), lambda m_, y, z: y.__iadd__(z)][k], inplace=k > 0)
        elif op == "cat":
            ax = r.choice([1, 2, 3]) if len(s) == 4 else 1
            ok = [q for q in range(len(self.val)) if self.val[q] is not None and len(b.shape(self.val[q])) == len(s) and
                  all(b.shape(self.val[q])[k] == s[k] for k in range(len(s)) if k != ax)]
            ins = [p, *r.sample(ok, min(len(ok), r.choice([1, 1, 2])))]
            r.shuffle(ins)
            v = b.node("Concat", [self.val[q] for q in ins], {"axis": ax}, None, {"axis": ax})
            d = ax - len(s) if r.random() < 0.5 else ax
            self.emit(v, ins, lambda m_, *z: t.cat(z, d))
        elif op == "drop":
            self.emit(x, [p], lambda m_, z: m_(z), nn.Dropout(0.5), alias=p)
        elif op == "flat":
            if self.last:
                raise Reject("flat")
            v = b.node("Flatten", [x], {}, None, {"shape": [1, int(np.prod(s[1:]))]})
            self.emit(v, [p], r.choice([lambda m_, z: t.flatten(z, 1), lambda m_, z: nn.Flatten()(z)]), alias=p)
        elif op == "pool":
            k = r.randint(1, 3)
            st = r.choice([None, 1, 2, 3])
            ph = r.randint(0, k // 2)
            pw = ph if r.random() < 0.5 else r.randint(0, k // 2)
            pad = ph if ph == pw else (ph, pw)
            if k > s[2] + 2 * ph or k > s[3] + 2 * pw:
                raise Reject("kernel")
            e = st or k
            v = b.node("MaxPool", [x], {"kernel_shape": [k, k], "strides": [e, e], "pads": [ph, pw] * 2}, None,
                       {"kh": k, "kw": k, "sh": e, "sw": e, "auto": "NOTSET", "pads": [ph, pw] * 2, "cip": 0})
            self.emit(v, [p], (lambda m_, z: F.max_pool2d(z, k, st, pad)) if r.random() < 0.5 else
                      (lambda m_, z: F.max_pool2d(z, (k, k), padding=pad, stride=None if st is None else (st, st))))
        elif op == "gap":
            if self.sc < 256 or s[2] != s[3]:
                raise Reject("gap")
            o = r.choice([d for d in range(1, s[2] + 1) if s[2] % d == 0])
            k = s[2] // o
            v = b.node("AveragePool", [x], {"kernel_shape": [k, k], "strides": [k, k]}, None,
                       {"kh": k, "kw": k, "sh": k, "sw": k, "auto": "NOTSET", "pads": [0] * 4, "cip": 0})
            self.emit(v, [p], lambda m_, z: F.adaptive_avg_pool2d(z, (o, o)))

    def build(self, least=1, most=8):
        t, r, b = self.t, self.r, self.b
        want, tries = r.randint(least, most), 0
        while len(self.steps) < want and tries < 60:
            tries += 1
            keep = (len(b.init_protos), len(b.inits), len(b.nodes))
            try:
                self.step()
            except Reject:
                if len(b.nodes) != keep[2]:
                    raise
                b.drop_last_init(*keep[:2])
        loose = [q for q in range(1, len(self.val)) if q not in self.used]
        while len(loose) > 1:
            p, q = loose.pop(), loose.pop()
            fl = [self.val[k] for k in (p, q)]
            if None in fl:
                raise Reject("overwritten")
            fl = [v if len(b.shape(v)) == 2 else b.node("Flatten", [v], {}, None, {"shape": [1, int(np.prod(b.shape(v)[1:]))]}) for v in fl]
            v = b.node("Concat", fl, {"axis": 1}, None, {"axis": 1})
            self.emit(v, [p, q], lambda m_, y, z: t.cat([t.flatten(y, 1), t.flatten(z, 1)], 1))
            loose.append(len(self.val) - 1)
        if not loose or self.val[loose[0]] is None:
            raise Reject("empty")
        return self.finish(loose[0])

    def finish(self, last, ends=None):
        """The module whose result is the value `last` (or the tuple of values `ends`)."""
        t, b = self.t, self.b
        v = self.val[last]
        if not b.nodes or v == 0 or b.is_init[v] or (self.last and v == 1):
            raise Reject("empty")
        if self.last and len(b.shape(v)) == 4:
            v = b.node("Transpose", [v], {"perm": [0, 2, 3, 1]}, None, {"perm": [0, 2, 3, 1]})
        steps = self.steps

        class M(t.nn.Module):
            def __init__(self, mods):
                super().__init__()
                self.m = t.nn.ModuleList([m or t.nn.Identity() for m in mods])

            def forward(self, x):
                vs = [x]
                for k, (f, ins) in enumerate(steps):
                    vs.append(f(self.m[k], *[vs[q] for q in ins]))
                return vs[last] if ends is None else tuple(vs[q] for q in ends)
        m = M(self.mods).eval()
        x = t.zeros(self.ish, dtype=self.dt)
        if self.last:
            x = x.to(memory_format=t.channels_last)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            ep = t.export.export(m, (x,))
        # the real network confirms the expectation written above
        for k, smp in enumerate(b.samples):
            a = t.tensor(np.array(smp) / self.sc, dtype=self.dt).reshape(b.ishape)
            a = a.permute(0, 3, 1, 2) if self.last else a
            with t.no_grad():
                y = m(a.clone())
            y = (y if ends is None else y[ends.index(last)]).double().numpy()
            y = y.transpose(0, 2, 3, 1) if self.last and y.ndim == 4 else y
            if not np.allclose(y, b.val[v][k], rtol=1e-4, atol=1e-3):
                raise RuntimeError("the oracle misrepresents the PyTorch module")
        return b, v, ep


def torch_case(i: int):
    r = random.Random(f"torch-{i}-{seed()}")
    for _ in range(400):
        try:
            k = Torch(r)
            b, v, ep = k.build()
        except Reject:
            continue
        return b, v, ep, {"dtype": np.float64 if k.f64 else np.float32}
    return None


FAMILIES = {"nnet": nnet_case, "json": json_case, "torch": torch_case}


def run(chk: Check) -> None:
    thorough = tier() == "thorough"
    n = {"nnet": 90, "json": 450, "torch": 450} if not thorough else {"nnet": 300, "json": 1500, "torch": 1200}
    variants = conv_variants()
    import torch
    torch.set_num_threads(1)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):  # warm up before forking
        torch.export.export(torch.nn.Linear(1, 1), (torch.zeros(1, 1),))
    from torch._inductor import config  # noqa: F401

    def make(arg):
        fam, i = arg
        r = FAMILIES[fam](i)
        if r is None:
            return None
        b, o, source, kw = r
        if len(b.nodes) == 0:
            return None
        rng = random.Random(f"opt-{arg}-{seed()}")
        if fam != "torch" and rng.random() < 0.3:
            kw["optimization"] = True
        if rng.random() < 0.3:
            kw["bin_dataset"] = True
        if rng.random() < 0.4:
            kw["versions"] = {"Conv2D": rng.choice(variants)}
        case = b.case(f"{fam}-{i}", o)
        if any(nd["a"].get("group", 1) > 1 for nd in case["nodes"]) and rng.random() < 0.7:
            kw["versions"] = {"Conv2D": "direct_block"}
        # grouped convolutions exist in the channels-last implementation only, the others refuse them
        case["refuse"] = int(any(nd["a"].get("group", 1) > 1 for nd in case["nodes"]))
        chans = ("python", "c")
        if fam == "torch":
            case["channels"] = full_run(source, case, channels=chans, **kw)
        else:
            d = Path(tempfile.mkdtemp(prefix="acv-fmt-", dir="/tmp"))
            try:
                (d / f"model.{fam}").write_text(source)
                f = d / f"model.{fam}"
                case["channels"] = full_run(str(f) if rng.random() < 0.5 else f, case, channels=chans, **kw)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        if kw.get("versions", {}).get("Conv2D") == "direct_block":
            # the blocked convolution refuses what it doesn't support when it is written
            case["channels"] = [{**c, "status": "import"} if c["status"] == "generate" else c for c in case["channels"]]
        kept = b.case
        b.case = lambda cid, out: case if cid == case["id"] else kept(cid, out)
        return b, o, case["id"], {"_custom": True}

    run_cases(chk, [(f, i) for f in n for i in range(n[f])], make, channels=("python", "c"), limit=120, label="")
    chk.rule = ("NetTrace: a network written as an NNET text, as a Keras JSON description or as an exported PyTorch module gives, from the "
                "Python reference and from the compiled program, the output the specification of its operators defines")
    chk.cov = {"formats": n}
    chk.assumptions = ["Keras .h5 files are not read by this version of Python (the importer requires Python < 3.12)"]
