"""Random feed-forward networks, in the neutral form the specification reads and as ONNX.

A network under construction holds a table of tensors (network input, initialisers, node
outputs) with concrete values from the ONNX reference evaluator (used only to know shapes and
to keep magnitudes inside the exact range), a list of ONNX nodes, and the list of specification
nodes.  All values are integers / sc.
"""
from __future__ import annotations

import random

import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper
from onnx.reference import ReferenceEvaluator

LIM = 1 << 20


class Reject(Exception):
    """The proposed node does not fit (shape or magnitude)."""


class Net:
    for_runtime = False     # keep to what onnxruntime accepts

    def __init__(self, rng: random.Random, ishape, sc: int = 1, nsamples: int = 2, lo=-4, hi=4,
                 opset: int = 17, dtype=np.float32, long_names: bool = True, block: bool = False) -> None:
        self.block = block
        self.rng, self.sc, self.opset, self.dtype = rng, sc, opset, dtype
        self.long = long_names
        self.ishape = list(ishape)
        n = int(np.prod(ishape))
        self.samples = []
        for _ in range(nsamples):
            self.samples.append([rng.randint(lo * sc, hi * sc) for _ in range(n)])
        self.name_of = ["input" if long_names else "X"]
        self.val = [[np.array(s, dtype=np.float64).reshape(ishape) / sc for s in self.samples]]
        self.is_init = [False]
        self.inits, self.init_protos = [], []
        self.nodes, self.protos = [], []
        self.uses = [0]
        self.classes: list[str] = []
        self.tol = 1
        self.noisy = False
        self.lim = LIM if sc <= 256 else LIM // 8
        self.big = False  # tensors of thousands of values

    # -- tables -----------------------------------------------------------------
    def shape(self, v: int) -> list[int]:
        return list(self.val[v][0].shape)

    def init(self, arr_units: np.ndarray, name: str | None = None, dtype=None) -> int:
        """Add an initialiser given in units of 1/sc."""
        if self.nodes:
            # keep value numbering: inits come before nodes in the specification
            pass
        arr_units = np.asarray(arr_units)
        name = name or f"const_{len(self.init_protos)}" + ("_w" if self.long else "")
        f = (arr_units.astype(np.float64) / self.sc).astype(dtype or self.dtype)
        self.init_protos.append(numpy_helper.from_array(f, name))
        self.inits.append({"s": list(arr_units.shape), "d": [int(x) for x in arr_units.flatten()]})
        self.name_of.append(name)
        self.val.append([f.astype(np.float64)] * len(self.samples))
        self.is_init.append(True)
        self.uses.append(0)
        return len(self.name_of) - 1

    def raw_init(self, arr: np.ndarray, name: str | None = None) -> str:
        """An initialiser the specification sees as an attribute (indices, pads, ...)."""
        name = name or f"attr_{len(self.init_protos)}"
        self.init_protos.append(numpy_helper.from_array(arr, name))
        return name

    def drop_last_init(self, nprotos: int, ninit: int) -> None:
        del self.init_protos[nprotos:]
        while len(self.inits) > ninit:
            self.inits.pop()
            self.name_of.pop()
            self.val.pop()
            self.is_init.pop()
            self.uses.pop()

    def node(self, op: str, ins: list, attrs: dict, spec_op: str | None, spec_attrs: dict,
             spec_ins: list[int] | None = None, lim=LIM, noise: float = 0.0) -> int:
        """Append a node.  ins: value ids or raw initialiser names or ''."""
        names = [self.name_of[i] if isinstance(i, int) else i for i in ins]
        k = len(self.nodes)
        out = f"t{k}_{op.lower()}" if self.long else chr(ord("a") + k)
        proto = helper.make_node(op, names, [out], name=f"n{k}_{op}", **attrs)
        vals = []
        feeds_raw = {p.name: numpy_helper.to_array(p) for p in self.init_protos if p.name in names}
        try:
            # the reference evaluator mishandles padding
            ort_ = op in ("Conv", "MaxPool", "AveragePool", "LRN") or (op == "Softmax" and self.opset < 13)
            dt = np.float32 if ort_ else self.dtype
            et = helper.np_dtype_to_tensor_dtype(np.dtype(dt))
            given = [p for p in self.init_protos if p.name in names]
            if ort_:
                given = [p if p.data_type != TensorProto.DOUBLE else
                         numpy_helper.from_array(numpy_helper.to_array(p).astype(dt), p.name) for p in given]
            if op == "Conv" and str(attrs.get("auto_pad", "")).startswith("SAME") and max(attrs.get("dilations", [1])) > 1:
                # onnxruntime refuses those: the same paddings, written out
                if Net.for_runtime:
                    raise Reject("the whole network must run on onnxruntime")
                b_, e_ = [], []
                for d, k, st, n in zip(attrs["dilations"], attrs["kernel_shape"], attrs["strides"], self.shape(ins[0])[2:]):
                    t = max(0, (-(-n // st) - 1) * st + (k - 1) * d + 1 - n)
                    b_.append((t + 1) // 2 if attrs["auto_pad"] == "SAME_LOWER" else t // 2)
                    e_.append(t - b_[-1])
                explicit = {q: z for q, z in attrs.items() if q != "auto_pad"}
                eproto = helper.make_node(op, names, [out], **{**explicit, "pads": b_ + e_})
            else:
                eproto = proto
            g = helper.make_graph([eproto], "g", [helper.make_tensor_value_info(n, et, None)
                                                 for n in dict.fromkeys(names) if n and n not in feeds_raw], [
                helper.make_tensor_value_info(out, et, None)], initializer=given)
            mod = helper.make_model(g, opset_imports=[helper.make_opsetid("", self.opset)])
            mod.ir_version = 8
            if ort_:
                import onnxruntime as ort
                so = ort.SessionOptions()
                so.intra_op_num_threads = 1
                run = ort.InferenceSession(mod.SerializeToString(), so).run
            else:
                run = ReferenceEvaluator(mod).run
            for s in range(len(self.samples)):
                feeds = {}
                for i in ins:
                    if isinstance(i, int) and not self.is_init[i]:
                        feeds[self.name_of[i]] = self.val[i][s].astype(dt)
                vals.append(np.asarray(run(None, feeds)[0], dtype=np.float64))
        except Exception as e:  # noqa: BLE001
            raise Reject(f"{op}: {e}") from e
        for v in vals:
            if v.size == 0 or v.size > (3000 if self.big else 400) or not np.isfinite(v).all() or np.abs(v).max() * self.sc > min(lim, self.lim):
                raise Reject(f"{op}: magnitude")
        self.protos.append(proto)
        ids = spec_ins if spec_ins is not None else [i for i in ins if isinstance(i, int)]
        self.nodes.append({"op": spec_op or op, "ids": ids, "a": spec_attrs, "name": proto.name})
        for i in ids:
            self.uses[i] += 1
        self.name_of.append(out)
        self.val.append(vals)
        self.is_init.append(False)
        self.uses.append(0)
        return len(self.name_of) - 1

    # -- exports ----------------------------------------------------------------
    def model(self, out: int, order: list[int] | None = None) -> onnx.ModelProto:
        et = helper.np_dtype_to_tensor_dtype(np.dtype(self.dtype))
        inp = helper.make_tensor_value_info(self.name_of[0], et, self.ishape)
        o = helper.make_tensor_value_info(self.name_of[out], et, self.shape(out))
        protos = self.protos if order is None else [self.protos[k] for k in order]
        g = helper.make_graph(protos, "net", [inp], [o], initializer=self.init_protos)
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", self.opset)])
        m.ir_version = 8
        return m

    def case(self, cid: str, out: int) -> dict:
        # the specification numbers: 1 input, then inits, then nodes
        order = [0] + [i for i in range(1, len(self.name_of)) if self.is_init[i]] + \
                [i for i in range(1, len(self.name_of)) if not self.is_init[i]]
        num = {v: k + 1 for k, v in enumerate(order)}
        return {
            "id": cid, "sc": self.sc, "tol": self.tol, "ishape": self.ishape, "samples": self.samples,
            "inits": self.inits,
            "nodes": [{"op": n["op"], "a": n["a"] or {"z": 0}, "ins": [num[i] for i in n["ids"]]} for n in self.nodes],
            "outv": num[out], "channels": [],
        }


# --------------------------------------------------------------------------- operators
def free_axes(s: list[int]) -> list[int]:
    """The axes which operators may treat: an axis of length 1 in front of an image is a batch."""
    return list(range(0 if len(s) < 4 and s[0] > 1 else 1, len(s)))


def ints(rng, shape, lo, hi, sc=1, nz=False):
    a = np.array([rng.randint(lo, hi) for _ in range(int(np.prod(shape)))], dtype=np.int64).reshape(shape)
    if nz:
        a[a == 0] = 1
    return a * sc


def g_unary(op, fn=None):
    def g(b: Net, x: int) -> int:
        r = b.rng
        if op == "LeakyRelu":
            an, ad = r.choice([(1, 2), (1, 4), (3, 4), (1, 8), (1, 100)])
            if ad == 100:
                return b.node(op, [x], r.choice([{}, {"alpha": 0.01}]), None, {"an": an, "ad": ad})
            return b.node(op, [x], {"alpha": an / ad}, None, {"an": an, "ad": ad})
        if op == "Clip":
            lo, hi = r.choice([(-3, 0), (-2, 4), (0, 6), (-1, 1), (1, 3), (-4, -2), (0, 1), (-3, 3), (2, 2)])
            form = r.choice([[], [1]])
            lo_, hi_ = (b.raw_init(np.array(v, b.dtype).reshape(form)) for v in (lo, hi))
            both = r.random() < 0.75
            has = (1, 1) if both else r.choice([(1, 0), (0, 1), (0, 1), (0, 0)])
            ins = [x, lo_ if has[0] else "", hi_ if has[1] else ""]
            while ins[-1] == "" and r.random() < 0.7:
                ins.pop()
            return b.node(op, ins, {}, None, {"haslo": has[0], "hashi": has[1], "lo": lo * b.sc if has[0] else 0, "hi": hi * b.sc if has[1] else 0},
                          spec_ins=[x])
        if op == "Exp" and max(np.abs(v).max() for v in b.val[x]) > 4:
            raise Reject("exp")
        if op == "Log" and min(v.min() for v in b.val[x]) < 0.25:
            raise Reject("log")
        if op in ("Sigmoid", "Tanh") and max(np.abs(v).max() for v in b.val[x]) > 500:
            raise Reject(op)
        return b.node(op, [x], {}, None, {})
    return g


def _pads_choice(r, kh, kw, ih, iw, sq=False):
    auto = r.choice(["NOTSET", "NOTSET", "NOTSET", "VALID", "SAME_UPPER", "SAME_LOWER"])
    pads = [0, 0, 0, 0]
    if auto == "NOTSET" and r.random() < 0.7:
        pads = [r.randint(0, kh - 1), r.randint(0, kw - 1), r.randint(0, kh - 1), r.randint(0, kw - 1)]
        if sq:
            pads = [r.randint(0, kh - 1)] * 4
    return auto, pads


def g_conv(b: Net, x: int, oc=None) -> int:
    r, s = b.rng, b.shape(x)
    if len(s) != 4:
        raise Reject("rank")
    most = 5 if b.big else 3
    kh, kw = r.randint(1, min(most, s[2] + 1)), r.randint(1, min(most, s[3] + 1))
    st = r.choice([1, 1, 2, 3])
    dil = r.choice([1, 1, 2])
    auto, pads = _pads_choice(r, kh, kw, s[2], s[3])
    if dil == 2 and r.random() < 0.3:  # an odd number of rows to add
        st, auto, pads = 2, r.choice(["SAME_UPPER", "SAME_LOWER"]), [0] * 4
    if b.block:  # what the blocked channels-last implementation accepts, mostly
        if r.random() < 0.55:
            kh = kw = 3
            st = r.choice([1, 1, 1, 2])
        dil = 1 if r.random() < 0.97 else 2
        if r.random() < 0.9:
            auto, p = "NOTSET", r.choice([0, 1, 1, 2])
            pads = [min(p, kh), min(p, kh), min(p, kh) if r.random() < 0.8 else 0, min(p, kh) if r.random() < 0.8 else 0]
        if oc is None and r.random() < 0.4:
            oc = r.choice([4, 5, 8]) if s[2] * s[3] > 9 or r.random() < 0.8 else r.choice([65, 70, 128])
    if (kh - 1) * dil + 1 > s[2] + pads[0] + pads[2] or (kw - 1) * dil + 1 > s[3] + pads[1] + pads[3]:
        raise Reject("kernel")
    oc = oc or (r.randint(4, 20) if b.big else r.randint(1, 3))
    w = b.init(ints(r, [oc, s[1], kh, kw], -2, 2, b.sc))
    ins = [x, w]
    if r.random() < 0.75:
        ins.append(b.init(ints(r, [oc], -3, 3, b.sc)))
    at = {"kernel_shape": [kh, kw], "strides": [st, st]}
    if dil > 1 or r.random() < 0.5:
        at["dilations"] = [dil, dil]
    if auto == "NOTSET":
        if any(pads) or r.random() < 0.5:
            at["pads"] = pads
    else:
        at["auto_pad"] = auto
    return b.node("Conv", ins, at, None,
                  {"sh": st, "sw": st, "dh": dil, "dw": dil, "group": 1, "auto": auto, "pads": pads})


def g_pool(op):
    def g(b: Net, x: int) -> int:
        r, s = b.rng, b.shape(x)
        if len(s) != 4:
            raise Reject("rank")
        k = r.choice([3, 4, 5, 7] if b.big else [1, 2, 2, 3, 3])
        st = r.choice([1, 1, 2, 3])
        auto, pads = _pads_choice(r, k, k, s[2], s[3])
        if auto == "NOTSET" and (k > s[2] + pads[0] + pads[2] or k > s[3] + pads[1] + pads[3]):
            raise Reject("kernel")
        at = {"kernel_shape": [k, k], "strides": [st, st]}
        if auto == "NOTSET":
            if any(pads) or r.random() < 0.5:
                at["pads"] = pads
        else:
            at["auto_pad"] = auto
        return b.node(op, [x], at, None, {"kh": k, "kw": k, "sh": st, "sw": st, "auto": auto, "pads": pads, "cip": 0})
    return g


def g_gap(b: Net, x: int) -> int:
    s = b.shape(x)
    if len(s) != 4:
        raise Reject("rank")
    return b.node("GlobalAveragePool", [x], {}, None, {})


def g_gemm(b: Net, x: int) -> int:
    r, s = b.rng, b.shape(x)
    if len(s) != 2:
        raise Reject("rank")
    ta, tb = r.choice([0, 0, 1]), r.choice([0, 1])
    k = s[0] if ta else s[1]
    m = s[1] if ta else s[0]
    n = r.randint(10, 70) if b.big else r.randint(1, 5)
    w = b.init(ints(r, [n, k] if tb else [k, n], -2, 2, b.sc))
    ins = [x, w]
    at, sp = {}, {"tA": ta, "tB": tb, "an": 1, "ad": 1, "bn": 1, "bd": 1}
    if r.random() < 0.7:
        cs = r.choice([[n], [1, n], [m, n], [m, n], [1, 1], [m, 1], [1], []])
        ins.append(b.init(ints(r, cs, -3, 3, b.sc)))
    if r.random() < 0.4:
        sp["an"] = r.choice([2, 3, -1])
        at["alpha"] = float(sp["an"])
    if r.random() < 0.4:
        sp["bn"] = r.choice([2, 3, -1])
        at["beta"] = float(sp["bn"])
    if ta or r.random() < 0.3:
        at["transA"] = ta
    if tb or r.random() < 0.3:
        at["transB"] = tb
    return b.node("Gemm", ins, at, None, sp)


def g_matmul(b: Net, x: int, other: int | None = None) -> int:
    r, s = b.rng, b.shape(x)
    if other is not None:
        return b.node("MatMul", [x, other], {}, None, {})
    if r.random() < 0.6:
        n = r.randint(10, 70) if b.big else r.randint(1, 5)
        lead = [] if len(s) < 3 or r.random() < 0.5 else s[:-2]
        w = b.init(ints(r, [*lead, s[-1], n], -2, 2, b.sc))
        return b.node("MatMul", [x, w], {}, None, {})
    m = r.randint(10, 70) if b.big else r.randint(1, 5)
    if len(s) < 2:
        raise Reject("rank")
    lead = [] if len(s) < 3 or r.random() < 0.5 else s[:-2]
    w = b.init(ints(r, [*lead, m, s[-2]], -2, 2, b.sc))
    return b.node("MatMul", [w, x], {}, None, {})


def g_bn(b: Net, x: int) -> int:
    r, s = b.rng, b.shape(x)
    if len(s) < 2 or s[0] != 1 or b.sc < 256:
        raise Reject("bn")
    c = s[1]
    scale = b.init(np.array([r.choice([-2, -1, 1, 2, 3]) * b.sc // 2 for _ in range(c)]))
    bias = b.init(ints(r, [c], -3, 3, b.sc))
    mean = b.init(ints(r, [c], -2, 2, b.sc))
    if b.sc >= 1024 and r.random() < 0.6:  # the default epsilon is 0 at this scale
        scale = b.init(np.array([r.choice([-1, 1]) * b.sc // 16 for _ in range(c)]))
        var = b.init(np.array([r.choice([4, 9, 16, 9]) for _ in range(c)]))
        return b.node("BatchNormalization", [x, scale, bias, mean, var], {}, None, {"eps": 0})
    eps_u = r.choice([1, b.sc // 16, b.sc // 4])
    var = b.init(np.array([r.choice([b.sc // 4, b.sc, 4 * b.sc, 2 * b.sc]) for _ in range(c)]))
    return b.node("BatchNormalization", [x, scale, bias, mean, var], {"epsilon": eps_u / b.sc}, None, {"eps": eps_u})


def const_operand(b: Net, s: list[int], op: str) -> int:
    """A constant operand broadcastable to shape s."""
    r = b.rng
    kind = r.choice(["full", "chan", "scalar", "last", "lowrank", "mixed"])
    cs = list(s)
    if kind == "chan" and len(s) == 4:
        cs = [1, s[1], 1, 1]
    elif kind == "scalar":
        cs = [1] * r.randint(0, len(s))
    elif kind == "last" and len(s) >= 2:
        cs = [1] * (len(s) - 1) + [s[-1]]
    elif kind == "lowrank" and len(s) >= 2:
        cs = cs[r.randint(1, len(s) - 1):]
    elif kind == "mixed":
        cs = [d if r.random() < 0.5 else 1 for d in cs]
    n = int(np.prod(cs)) if cs else 1
    if op == "Div":
        arr = np.array([r.choice([-4, -2, -1, 1, 2, 4, 8]) for _ in range(n)]).reshape(cs) * b.sc
    elif op == "Mul":
        arr = np.array([r.choice([-2, -1, 1, 1, 2, 3, 0]) for _ in range(n)]).reshape(cs) * b.sc
    else:
        arr = ints(r, cs, -4, 4, b.sc)
    return b.init(arr)


def g_nary(op):
    def g(b: Net, x: int, *ys: int) -> int:
        r = b.rng
        ins = [x, *ys]
        if not ys or (op in ("Max", "Min", "Mean") and r.random() < 0.3):
            if op in ("Max", "Min", "Mean") and not ys and r.random() < 0.1:
                pass
            else:
                ins.append(const_operand(b, b.shape(x), op))
        r.shuffle(ins)
        if op == "Div":
            m = min(np.abs(v).min() for v in b.val[ins[1]])
            if m < 0.5 or (not b.is_init[ins[1]] and b.noisy):
                raise Reject("divisor")
        if op == "Mul" and b.sc > 1:
            m = [max(np.abs(v).max() for v in b.val[i]) * b.sc for i in ins]
            if m[0] * m[1] > 2**30:
                raise Reject("mul overflow")
        return b.node(op, ins, {}, None, {})
    return g


def g_concat(b: Net, x: int, others: list[int] | None = None) -> int:
    r, s = b.rng, b.shape(x)
    others = others or []
    r_ = len(s)
    axes = [a for a in (free_axes(s) if r_ > 1 else [0])
            if all(len(b.shape(o)) == r_ and all(b.shape(o)[k] == s[k] for k in range(r_) if k != a) for o in others)]
    if not axes or not others:
        raise Reject("concat")
    ax = r.choice(axes)
    ins = [x, *others]
    r.shuffle(ins)
    axis = ax - r_ if r.random() < 0.4 else ax
    return b.node("Concat", ins, {"axis": axis}, None, {"axis": axis})


def g_pad(b: Net, x: int) -> int:
    r, s = b.rng, b.shape(x)
    if len(s) < 2:
        raise Reject("rank")
    n = len(s)
    mode = r.choice(["constant", "edge", "reflect"] + (["wrap"] if b.opset >= 19 else []))
    p = [0] * (2 * n)
    for k in free_axes(s):
        if k <= 1 < n - 1 and r.random() < 0.6:
            continue
        lim = 2 if mode in ("constant", "edge") else min(2, s[k] - 1 if mode == "reflect" else s[k])
        p[k], p[k + n] = r.randint(0, max(0, lim)), r.randint(0, max(0, lim))
    v = r.randint(-3, 3) if mode == "constant" else 0
    axes, given = None, p
    if b.opset >= 18 and r.random() < 0.4:  # the pads of some axes, in any order
        axes = [k for k in range(n) if p[k] or p[k + n] or r.random() < 0.2]
        r.shuffle(axes)
        given = [p[k] for k in axes] + [p[k + n] for k in axes]
    ins = [x, b.raw_init(np.array(given, np.int64)), b.raw_init(np.array(v, b.dtype))]
    if axes:
        ins.append(b.raw_init(np.array([k - n if r.random() < 0.3 else k for k in axes], np.int64)))
    elif axes is not None:
        ins[1] = b.raw_init(np.array(p, np.int64))
    return b.node("Pad", ins, {"mode": mode}, None, {"mode": mode, "pads": p, "value": v * b.sc}, spec_ins=[x])


def g_transpose(b: Net, x: int) -> int:
    r, s = b.rng, b.shape(x)
    if len(s) < 2:
        raise Reject("rank")
    p = free_axes(s)
    if len(s) < 4 and r.random() < 0.25:
        return b.node("Transpose", [x], {}, None, {"perm": list(range(len(s)))[::-1]})
    r.shuffle(p)
    perm = p if 0 in p else [0, *p]
    return b.node("Transpose", [x], {"perm": perm}, None, {"perm": perm})


def g_tile(b: Net, x: int) -> int:
    r, s = b.rng, b.shape(x)
    if len(s) < 2:
        raise Reject("rank")
    reps = [r.choice([1, 1, 2, 3]) if k in free_axes(s) else 1 for k in range(len(s))]
    return b.node("Tile", [x, b.raw_init(np.array(reps, np.int64))], {}, None, {"reps": reps}, spec_ins=[x])


def g_gather(b: Net, x: int) -> int:
    r, s = b.rng, b.shape(x)
    if len(s) < 2:
        raise Reject("rank")
    ax = r.choice([*free_axes(s), *[0] * (len(s) < 4)])
    n = (r.randint(5, 60) if b.big else r.randint(1, 4)) if ax or s[0] > 1 else 1
    ind = [r.randint(-s[ax], s[ax] - 1) for _ in range(n)]
    axis = ax - len(s) if r.random() < 0.4 else ax
    return b.node("Gather", [x, b.raw_init(np.array(ind, np.int64))], {"axis": axis} if axis or r.random() < 0.5 else {}, None,
                  {"axis": axis, "ind": ind, "ishape": [n]}, spec_ins=[x])


def g_gather_elements(b: Net, x: int) -> int:
    r, s = b.rng, b.shape(x)
    if len(s) < 2:
        raise Reject("rank")
    ax = r.choice([*free_axes(s), *[0] * (len(s) < 4)])
    sh = [r.randint(1, d) for d in s]
    sh[ax] = r.randint(5, 30) if b.big else r.randint(1, 4)
    if s[0] == 1:
        sh[0] = 1
    n = int(np.prod(sh))
    ind = np.array([r.randint(-s[ax], s[ax] - 1) for _ in range(n)], np.int64).reshape(sh)
    axis = ax - len(s) if r.random() < 0.4 else ax
    return b.node("GatherElements", [x, b.raw_init(ind)], {"axis": axis} if axis or r.random() < 0.5 else {}, None,
                  {"axis": axis, "ind": [int(i) for i in ind.flatten()], "ishape": sh}, spec_ins=[x])


def g_reduce(op):
    def g(b: Net, x: int) -> int:
        r, s = b.rng, b.shape(x)
        if len(s) < 2:
            raise Reject("rank")
        rank = len(s)
        axes = free_axes(s)
        axes = sorted(r.sample(axes, r.randint(1, len(axes))))
        given = [a - rank if r.random() < 0.3 else a for a in axes]
        keep = r.choice([1, 1, 0])
        if op == "ReduceProd" and max(np.abs(v).max() for v in b.val[x]) > 6:
            raise Reject("prod")
        at = {"keepdims": keep}
        ins = [x]
        if op == "ReduceSum" or b.opset >= 18:
            ins.append(b.raw_init(np.array(given, np.int64)))
        else:
            at["axes"] = given
        return b.node(op, ins, at, None, {"axes": given, "keep": keep, "noop": 0}, spec_ins=[x])
    return g


def g_softmax(b: Net, x: int) -> int:
    r, s = b.rng, b.shape(x)
    if b.sc < 512:
        raise Reject("scale")
    ax = r.choice(free_axes(s))
    axis = ax - len(s) if r.random() < 0.5 else ax
    return b.node("Softmax", [x], {"axis": axis}, None, {"axis": axis})


def g_reshape(b: Net, x: int) -> int:
    r, s = b.rng, b.shape(x)
    n = int(np.prod(s))
    divs = [d for d in range(1, n + 1) if n % d == 0]
    if r.random() < 0.4:
        shp = [1, n]
    else:
        a = r.choice(divs)
        c = r.choice([d for d in range(1, n // a + 1) if (n // a) % d == 0])
        shp = [1, a, c, n // a // c]
    return b.node("Reshape", [x, b.raw_init(np.array(shp, np.int64))], {}, None, {"shape": shp}, spec_ins=[x])


def g_flatten(b: Net, x: int) -> int:
    s = b.shape(x)
    return b.node("Flatten", [x], {}, None, {"shape": [s[0], int(np.prod(s[1:]))]})


def g_dropout(b: Net, x: int) -> int:
    return b.node("Dropout", [x], {}, None, {})


def g_resize(b: Net, x: int) -> int:
    r, s = b.rng, b.shape(x)
    if len(s) != 4:
        raise Reject("rank")
    mode = r.choice(["nearest", "linear", "cubic"] if b.sc >= 256 else ["nearest"])
    ctm = r.choice(["half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel", "half_pixel_symmetric"])
    ratios = [(2, 1), (1, 1), (3, 1), (1, 2), (3, 2), (4, 1), (3, 4), (5, 2), (1, 4)]
    # A coordinate is compared with ties exactly: it has to be exact in floating point
    one = [(1, d) for d in s[2:] if mode != "nearest" or d in (1, 2, 4)]
    fh, fw = r.choice(ratios + one), r.choice(ratios + one)
    oh, ow = s[2] * fh[0] // fh[1], s[3] * fw[0] // fw[1]
    if oh < 1 or ow < 1 or s[1] * oh * ow > (600 if b.big else 400):
        raise Reject("scale")
    whole = oh * fh[1] == s[2] * fh[0] and ow * fw[1] == s[3] * fw[0]
    if not whole and mode == "nearest" and ctm == "half_pixel_symmetric":
        raise Reject("rounding")
    at = {"mode": mode, "coordinate_transformation_mode": ctm}
    nm = "round_prefer_floor"
    if mode == "nearest":
        nm = r.choice(["round_prefer_floor", "round_prefer_ceil", "floor", "ceil"])
        at["nearest_mode"] = nm
    coeff = -3072
    if mode == "cubic" and r.random() < 0.4:
        coeff = r.choice([-2048, -1024, -4096])
        at["cubic_coeff_a"] = coeff / 4096
    for name, default in (("mode", "nearest"), ("coordinate_transformation_mode", "half_pixel"), ("nearest_mode", "round_prefer_floor")):
        if at.get(name) == default and r.random() < 0.5:
            del at[name]
    sizes = whole and r.random() < 0.5
    if sizes:
        ins = [x, "", "", b.raw_init(np.array([1, s[1], oh, ow], np.int64))]
    else:
        ins = [x, "", b.raw_init(np.array([1, 1, fh[0] / fh[1], fw[0] / fw[1]], np.float32)), ""]
    sp = {"mode": mode, "ctm": ctm, "nm": nm, "oh": oh, "ow": ow, "hn": fh[0], "hd": fh[1], "wn": fw[0], "wd": fw[1],
          "A12": coeff, "excl": 0}
    return b.node("Resize", ins, at, None, sp, spec_ins=[x])


def g_silu(b: Net, x: int) -> int:
    """x * sigmoid(x), the shape of a fusible pair, or nearly so."""
    r = b.rng
    if b.sc < 256 or max(np.abs(v).max() for v in b.val[x]) > 60:
        raise Reject("silu")
    y = b.node("Sigmoid", [x], {}, None, {})
    b.noisy = True
    z = x
    if r.random() < 0.2:
        same = [v for v in range(len(b.name_of)) if not b.is_init[v] and b.shape(v) == b.shape(x)
                and max(np.abs(w).max() for w in b.val[v]) < 60]
        z = r.choice(same)
    return b.node("Mul", [z, y] if r.random() < 0.5 else [y, z], {}, None, {})


OPS = {
    "Relu": g_unary("Relu"), "LeakyRelu": g_unary("LeakyRelu"), "Clip": g_unary("Clip"),
    "Sigmoid": g_unary("Sigmoid"), "Tanh": g_unary("Tanh"), "Exp": g_unary("Exp"), "Log": g_unary("Log"),
    "Conv": g_conv, "MaxPool": g_pool("MaxPool"), "AveragePool": g_pool("AveragePool"),
    "GlobalAveragePool": g_gap, "Gemm": g_gemm, "MatMul": g_matmul, "BatchNormalization": g_bn,
    "Add": g_nary("Add"), "Sub": g_nary("Sub"), "Mul": g_nary("Mul"), "Div": g_nary("Div"),
    "Max": g_nary("Max"), "Min": g_nary("Min"), "Mean": g_nary("Mean"),
    "Concat": g_concat, "Pad": g_pad, "Transpose": g_transpose, "Tile": g_tile, "Gather": g_gather,
    "GatherElements": g_gather_elements,
    "ReduceSum": g_reduce("ReduceSum"), "ReduceMax": g_reduce("ReduceMax"), "ReduceMin": g_reduce("ReduceMin"),
    "ReduceMean": g_reduce("ReduceMean"), "ReduceProd": g_reduce("ReduceProd"),
    "Softmax": g_softmax, "Resize": g_resize, "Reshape": g_reshape, "Flatten": g_flatten, "Dropout": g_dropout, "Silu": g_silu,
}
FRACTIONAL = {"Sigmoid", "Tanh", "Exp", "Log", "Softmax"}                 # sc 1024
RATIONAL = {"AveragePool", "GlobalAveragePool", "ReduceMean", "Mean", "Div", "BatchNormalization", "LeakyRelu"}
