"""C15: what is not implemented is refused when the model is imported, never computed as something else."""
from __future__ import annotations

import contextlib
import io
import os
import random
import shutil
import tempfile
from pathlib import Path

import numpy as np
from onnx import TensorProto, helper, numpy_helper

from acv_cases import any_case, graph_case
from acv_core import Check, MachineryError, pool_map, seed, tier
from acv_nets import OPS, Net, Reject, ints
from acv_run import full_run
from checks.c15_formats import JSON, TORCH, Rand
from checks.net import judge

I64 = np.int64


def img(r, sc=1, c=None, h=None, w=None, lo=-4, hi=4, n=1, opset=17, **kw):
    return Net(r, [n, c or r.randint(1, 3), h or r.randint(3, 5), w or r.randint(3, 5)], sc, 2, lo, hi, opset=opset, **kw)


def vec(r, sc=1, n=None, lo=-4, hi=4, **kw):
    return Net(r, [1, n or r.randint(2, 6)], sc, 2, lo, hi, **kw)


# ---------------------------------------------------------------- windows
def conv(r, b, x, kh=3, kw=3, sh=1, sw=1, dh=1, dw=1, pads=(0, 0, 0, 0), group=1, oc=None, drop=(), auto="NOTSET", bias=True):
    s = b.shape(x)
    oc = oc or r.randint(1, 3)
    w = b.init(ints(r, [oc, s[1] // group, kh, kw], -2, 2, b.sc))
    ins = [x, w] + ([b.init(ints(r, [oc], -3, 3, b.sc))] if bias else [])
    at = {"kernel_shape": [kh, kw], "strides": [sh, sw], "dilations": [dh, dw], "group": group}
    if auto == "NOTSET":
        at["pads"] = list(pads)
    else:
        at["auto_pad"] = auto
    for d in drop:
        at.pop(d, None)
    return b.node("Conv", ins, at, None, {"sh": sh, "sw": sw, "dh": dh, "dw": dw, "group": group, "auto": auto, "pads": list(pads)})


def pool(b, x, op, kh=2, kw=2, sh=1, sw=1, pads=(0, 0, 0, 0), dh=1, dw=1, ceil=0, cip=0, drop=(), auto="NOTSET", **more):
    at = {"kernel_shape": [kh, kw], "strides": [sh, sw], **more}
    if auto == "NOTSET":
        at["pads"] = list(pads)
    else:
        at["auto_pad"] = auto
    if dh > 1 or dw > 1:
        at["dilations"] = [dh, dw]
    if ceil:
        at["ceil_mode"] = ceil
    if op == "AveragePool" and cip:
        at["count_include_pad"] = cip
    for d in drop:
        at.pop(d, None)
    return b.node(op, [x], at, None, {"kh": kh, "kw": kw, "sh": sh, "sw": sw, "auto": auto, "pads": list(pads), "cip": cip,
                                      "dh": dh, "dw": dw, "ceil": ceil})


def window(name, rat, f):
    """A construct over one image."""
    def g(r):
        b = img(r, 256 if rat else 1, h=r.randint(4, 6), w=r.randint(4, 6))
        return b, f(r, b, start(r, b))
    g.__name__ = name
    return g


def start(r, b):
    """The construct reads the input or another layer's result."""
    if r.random() < 0.5:
        return 0
    return OPS[r.choice(["Relu", "Clip"])](b, 0)


def two(r, lo=1, hi=3):
    a = r.randint(lo, hi)
    return a, r.choice([k for k in range(lo, hi + 1) if k != a])


def win_pair(key1, key2, lo, hi):
    def f(r):
        a, c = two(r, lo, hi)
        return {key1: a, key2: c}
    return f


def any_pool(r):
    return r.choice(["MaxPool", "AveragePool"])


def reduced(op, sop=None, axes_at=True):
    def g(r):
        sc = 256 if op in ("ReduceL2",) else 1
        b = img(r, sc, opset=17)
        ax = sorted(r.sample([1, 2, 3], r.randint(1, 2)))
        keep = r.choice([0, 1])
        return b, b.node(op, [start(r, b)], {"axes": ax, "keepdims": keep}, sop, {"axes": ax, "keep": keep, "noop": 0})
    return g


def scalar(op, sc=256, spec=None, attrs=None, sattrs=None, lo=-4, hi=4):
    def g(r):
        b = img(r, sc, lo=lo, hi=hi, opset=17 if op != "Gelu" else 20)
        x = 0
        if lo < 0 and r.random() < 0.5:
            x = conv(r, b, 0, 1, 1, bias=False) if sc == 1 else start(r, b)
        a = {k: (v(b) if callable(v) else v) for k, v in (sattrs or {}).items()}
        return b, b.node(op, [x], dict(attrs or {}), spec, a)
    return g


# ---------------------------------------------------------------- shapes computed in the graph
def dynamic_reshape(r):
    """The shape of a Reshape computed from the shape of a tensor, as PyTorch exports it."""
    b = img(r)
    x = OPS["Relu"](b, 0)
    s = b.shape(x)
    n = b.name_of
    n0 = int(np.prod(s[1:]))
    style = r.choice(["gather", "slice", "whole", "constants"])
    consts = {"zero": np.array(0, I64), "minus": np.array([-1], I64), "axis0": np.array([0], I64), "one": np.array([1], I64)}
    for k, v in consts.items():
        b.raw_init(v, "sh_" + k)
    if style == "gather":
        chain = [helper.make_node("Shape", [n[x]], ["sh"], name="shape"),
                 helper.make_node("Gather", ["sh", "sh_zero"], ["dim"], axis=0, name="gather"),
                 helper.make_node("Unsqueeze", ["dim", "sh_axis0"], ["dim1"], name="unsqueeze"),
                 helper.make_node("Concat", ["dim1", "sh_minus"], ["target"], axis=0, name="concat")]
        tgt = [1, n0]
    elif style == "slice":
        chain = [helper.make_node("Shape", [n[x]], ["sh"], name="shape"),
                 helper.make_node("Slice", ["sh", "sh_axis0", "sh_one"], ["dim"], name="slice"),
                 helper.make_node("Concat", ["dim", "sh_minus"], ["target"], axis=0, name="concat")]
        tgt = [1, n0]
    elif style == "whole":
        y = OPS["Flatten"](b, x)
        chain = [helper.make_node("Shape", [n[x]], ["target"], name="shape")]
        tgt, x = s, y
    else:
        chain = [helper.make_node("Concat", ["sh_one", "sh_minus"], ["target"], axis=0, name="concat")]
        tgt = [1, n0]
    return finish_reshape(r, b, x, chain, tgt)


def finish_reshape(r, b, x, chain, tgt):
    b.raw_init(np.array(tgt, I64), "ref_target")
    v = b.node("Reshape", [x, "ref_target"], {}, None, {"shape": tgt}, spec_ins=[x])
    p = b.protos.pop()
    p.input[1] = "target"
    b.init_protos[:] = [i for i in b.init_protos if i.name != "ref_target"]
    b.protos += [*chain, p]
    if r.random() < 0.7:
        v = OPS["Relu"](b, v)
    return b, v


def shape_as_value(r):
    """The dimensions of a tensor used as values."""
    b = vec(r, lo=1, hi=3)
    x = OPS["Relu"](b, 0)
    d = b.init(np.array(b.shape(x)))
    v = b.node("Mul", [x, d] if b.shape(x)[1] in (1, 2) else [x, d], {}, None, {})
    p = b.protos.pop()
    nm = b.name_of[d]
    b.init_protos[:] = [i for i in b.init_protos if i.name != nm]
    b.protos += [helper.make_node("Shape", [b.name_of[x]], ["dims"], name="shape"),
                 helper.make_node("Cast", ["dims"], [nm], to=TensorProto.FLOAT, name="cast"), p]
    return b, v


def shape_direct(r):
    """A network whose output is the shape of a tensor."""
    b = Net(r, [1, 2, 3, 4], 1, 2, dtype=np.float32)
    x = OPS["Relu"](b, 0)
    d = b.init(np.array(b.shape(x)))
    v = b.node("Identity", [d], {}, None, {})
    b.protos.pop()
    b.protos.append(helper.make_node("Shape", [b.name_of[x]], [b.name_of[v]], name="shape"))
    nm = b.name_of[d]
    b.init_protos[:] = [i for i in b.init_protos if i.name != nm]
    return b, v


# ---------------------------------------------------------------- slices and friends
def slices(r):
    b = img(r)
    x = start(r, b)
    s = b.shape(x)
    ax = r.choice([1, 2, 3])
    a = r.randint(0, s[ax] - 1)
    e = r.randint(a + 1, s[ax])
    by = r.choice([1, 2])
    st, en, bys = [0] * 4, list(s), [1] * 4
    st[ax], en[ax], bys[ax] = a, e, by
    ins = [x] + [b.raw_init(np.array([v], I64)) for v in (a, e, ax, by)]
    return b, b.node("Slice", ins, {}, None, {"st": st, "en": en, "by": bys}, spec_ins=[x])


def split(r):
    b = img(r, c=4, h=4, w=4)
    x = start(r, b)
    ax, k = r.choice([1, 2, 3]), r.choice([0, 1])
    st, en = [0] * 4, [1, 4, 4, 4]
    st[ax], en[ax] = 2 * k, 2 * k + 2
    v = b.node("Slice", [x] + [b.raw_init(np.array(q, I64)) for q in (st, en)], {}, None,
               {"st": st, "en": en, "by": [1] * 4}, spec_ins=[x])
    p = b.protos.pop()
    outs = ["split_other", p.output[0]] if k else [p.output[0], "split_other"]
    half = b.raw_init(np.array([2, 2], I64))
    b.protos.append(helper.make_node("Split", [b.name_of[x], half], outs, axis=ax, name="split"))
    if r.random() < 0.5:
        v = OPS["Relu"](b, v)
    return b, v


def squeeze(r):
    b = Net(r, [1, r.randint(2, 4), 1, r.randint(2, 4)], 1, 2)
    x = start(r, b)
    s = b.shape(x)
    v = b.node("Squeeze", [x, b.raw_init(np.array([2], I64))], {}, "Reshape", {"shape": [s[0], s[1], s[3]]}, spec_ins=[x])
    return b, OPS["Relu"](b, v)


def expand(r):
    b = Net(r, [1, r.randint(1, 3), 1, r.randint(2, 4)], 1, 2)
    x = start(r, b)
    s = b.shape(x)
    t = [1, s[1], 3, s[3]]
    return b, b.node("Expand", [x, b.raw_init(np.array(t, I64))], {}, None, {"shape": t}, spec_ins=[x])


def upsample(r):
    b = img(r, opset=9)
    s = b.shape(0)
    fh, fw = r.choice([1, 2]), r.choice([2, 3])
    sc = b.raw_init(np.array([1, 1, fh, fw], np.float32))
    return b, b.node("Upsample", [0, sc], {"mode": "nearest"}, "Tile" if False else "Resize",
                     {"mode": "nearest", "ctm": "asymmetric", "nm": "floor", "oh": s[2] * fh, "ow": s[3] * fw,
                      "hn": s[2] * fh, "hd": s[2], "wn": s[3] * fw, "wd": s[3], "A12": -3072, "excl": 0}, spec_ins=[0])


def space(op):
    def g(r):
        b = Net(r, [1, 4 if op == "DepthToSpace" else 2, 4, 2], 1, 2)
        return b, b.node(op, [start(r, b)], {"blocksize": 2}, None, {"b": 2})
    return g


def global_max(r):
    b = img(r)
    return b, b.node("GlobalMaxPool", [start(r, b)], {}, "ReduceMax", {"axes": [2, 3], "keep": 1, "noop": 0})


def argmax(r):
    b = img(r, lo=-9, hi=9)
    ax = r.choice([1, 2, 3])
    return b, b.node("ArgMax", [0], {"axis": ax, "keepdims": 1}, None, {"axis": ax})


def prelu(r):
    b = img(r)
    x = start(r, b)
    c = b.shape(x)[1]
    sl = b.init(ints(r, [c, 1, 1], -2, 2))
    return b, b.node("PRelu", [x, sl], {}, None, {})


def sum_n(r):
    b = img(r)
    x = OPS["Relu"](b, 0)
    n = r.choice([1, 2, 3])
    ins = [0, x, b.init(ints(r, b.shape(0), -3, 3))][:n]
    return b, b.node("Sum", ins, {}, "Add", {})


def power(r):
    b = img(r)
    e = b.raw_init(np.array(2.0, np.float32))
    return b, b.node("Pow", [start(r, b), e], {}, "Square", {}, spec_ins=None if False else [len(b.nodes) and len(b.name_of) - 1 or 0])


def identity(r):
    b = img(r)
    v = b.node("Identity", [start(r, b)], {}, None, {})
    return b, OPS["Relu"](b, v) if r.random() < 0.6 else v


def lrn(r):
    b = img(r, 256, c=r.randint(2, 5))
    size, (an, ad) = r.choice([1, 3, 5]), r.choice([(1, 1), (1, 2), (3, 1)])
    bias = r.choice([1, 2])
    return b, b.node("LRN", [start(r, b)], {"size": size, "alpha": an / ad, "beta": 1.0, "bias": float(bias)}, None,
                     {"size": size, "an": an, "ad": ad, "bias": bias * b.sc})


def instance_norm(r):
    b = img(r, 256)
    c = b.shape(0)[1]
    s, t = b.init(ints(r, [c], 1, 2, b.sc)), b.init(ints(r, [c], -2, 2, b.sc))
    return b, b.node("InstanceNormalization", [0, s, t], {"epsilon": 0.25}, "InstanceNorm", {"eps": b.sc // 4})


def conv_transpose(r):
    """Stride 1: the convolution by the flipped kernel, fully padded."""
    b = img(r)
    c, oc = b.shape(0)[1], r.randint(1, 2)
    w = ints(r, [oc, c, 2, 2], -2, 2)
    iw = b.init(w)
    v = b.node("Conv", [0, iw], {"kernel_shape": [2, 2], "pads": [1, 1, 1, 1]}, None,
               {"sh": 1, "sw": 1, "dh": 1, "dw": 1, "group": 1, "auto": "NOTSET", "pads": [1, 1, 1, 1]})
    p = b.protos.pop()
    wt = b.raw_init(np.ascontiguousarray(w[:, :, ::-1, ::-1].transpose(1, 0, 2, 3)).astype(np.float32))
    b.init_protos[:] = [i for i in b.init_protos if i.name != b.name_of[iw]]
    b.protos.append(helper.make_node("ConvTranspose", [b.name_of[0], wt], list(p.output), name=p.name))
    return b, v


# ---------------------------------------------------------------- variants of operators that are implemented
def conv_computed_weights(r):
    """The weights are the result of another node."""
    b = img(r)
    c = b.shape(0)[1]
    w = b.init(ints(r, [2, c, 2, 2], -2, 2))
    w2 = OPS["Relu"](b, w)
    return b, b.node("Conv", [0, w2], {"kernel_shape": [2, 2]}, None,
                     {"sh": 1, "sw": 1, "dh": 1, "dw": 1, "group": 1, "auto": "NOTSET", "pads": [0] * 4})


def conv_computed_bias(r):
    b = img(r)
    c = b.shape(0)[1]
    w = b.init(ints(r, [2, c, 2, 2], -2, 2))
    bb = OPS["Relu"](b, b.init(ints(r, [2], -3, 3)))
    return b, b.node("Conv", [0, w, bb], {"kernel_shape": [2, 2]}, None,
                     {"sh": 1, "sw": 1, "dh": 1, "dw": 1, "group": 1, "auto": "NOTSET", "pads": [0] * 4})


def conv_empty_bias(r):
    b = img(r)
    v = conv(r, b, start(r, b), 2, 2, bias=False)
    b.protos[-1].input.append("")
    return b, v


def conv_1d(r):
    n, c = r.randint(4, 6), r.randint(1, 3)
    b = Net(r, [1, c, n], 1, 2)
    k, oc = r.randint(1, 3), r.randint(1, 3)
    w = b.init(ints(r, [oc, c, k], -2, 2))
    # read as an image of one row
    v = b.node("Conv", [0, w], {"kernel_shape": [k]}, "Linear", {})
    b.nodes.pop()
    b.nodes += [{"op": "Reshape", "ids": [0], "a": {"shape": [1, c, 1, n]}, "name": "r0"}]
    return via_image(b, v, w, [oc, c, 1, k], {"sh": 1, "sw": 1, "dh": 1, "dw": 1, "group": 1, "auto": "NOTSET", "pads": [0] * 4},
                     [1, oc, n - k + 1])


def via_image(b, v, w, wshape, attrs, out):
    """Specification nodes of a one-dimensional convolution: reshape, convolve, reshape."""
    b.inits[0]["s"] = wshape
    b.is_init = [True if k == w else False for k in range(len(b.is_init))]
    base = len(b.name_of)
    # values: 0 input, w, v (unused number) -> renumber by hand in the case
    b.hand = {"nodes": [{"op": "Reshape", "a": {"shape": [1, wshape[1], 1, b.ishape[2]]}, "ins": [1]},
                        {"op": "Conv", "a": attrs, "ins": [3, 2]},
                        {"op": "Reshape", "a": {"shape": out}, "ins": [4]}], "outv": 5}
    assert base == 3
    return b, v


def gemm_computed(r):
    b = vec(r)
    k = b.shape(0)[1]
    w = OPS["Relu"](b, b.init(ints(r, [k, 3], -2, 2)))
    return b, b.node("Gemm", [0, w], {}, None, {"tA": 0, "tB": 0, "an": 1, "ad": 1, "bn": 1, "bd": 1})


def gemm_computed_bias(r):
    b = vec(r)
    k = b.shape(0)[1]
    w = b.init(ints(r, [k, k], -2, 2))
    c = r.choice([0, OPS["Relu"](b, 0)])
    return b, b.node("Gemm", [0, w, c], {}, None, {"tA": 0, "tB": 0, "an": 1, "ad": 1, "bn": 1, "bd": 1})


def matmul_vector(r):
    b = Net(r, [r.randint(1, 4), r.randint(1, 4)], 1, 2, -4, 4)
    s = b.shape(0)
    if r.random() < 0.7:
        w = b.init(ints(r, [s[1]], -3, 3))
        v = b.node("MatMul", [start(r, b), w], {}, None, {})
    else:
        w = b.init(ints(r, [s[0]], -3, 3))
        v = b.node("MatMul", [w, start(r, b)], {}, None, {})
    return b, v


def bn_computed(r):
    b = img(r, 256)
    c = b.shape(0)[1]
    one = lambda lo, hi: b.init(ints(r, [c], lo, hi, b.sc))  # noqa: E731
    s, t, m, v = one(1, 2), one(-2, 2), one(-2, 2), one(1, 2)
    s2 = OPS["Relu"](b, s)
    return b, b.node("BatchNormalization", [0, s2, t, m, v], {"epsilon": 0.25}, None, {"eps": b.sc // 4})


def clip_computed(r):
    b = vec(r)
    m = b.node("ReduceMax", [0], {"keepdims": 0}, None, {"axes": [], "keep": 0, "noop": 0})
    lo = b.node("ReduceMin", [0], {"keepdims": 0}, None, {"axes": [], "keep": 0, "noop": 0})
    x = OPS["Relu"](b, 0)
    if r.random() < 0.5:
        v = b.node("Clip", [x, lo, ""], {}, "Max", {}, spec_ins=[x, lo])
    else:
        half = b.node("Add", [lo, m], {}, None, {})
        v = b.node("Clip", [x, "", half], {}, "Min", {}, spec_ins=[x, half])
    return b, v


def gather_computed(r):
    b = img(r)
    ax = r.choice([1, 2, 3])
    n = b.shape(0)[ax]
    ind = [r.randint(0, n - 1) for _ in range(2)]
    v = b.node("Gather", [0, b.raw_init(np.array(ind, I64))], {"axis": ax}, None, {"axis": ax, "ind": ind, "ishape": [2]}, spec_ins=[0])
    p = b.protos.pop()
    f = b.raw_init(np.array(ind, np.float32))
    b.protos += [helper.make_node("Cast", [f], ["indices"], to=TensorProto.INT64, name="cast"), p]
    p.input[1] = "indices"
    return b, v


def gather_nd_indices(r):
    b = img(r)
    ax = r.choice([1, 2, 3])
    n = b.shape(0)[ax]
    ind = np.array([[r.randint(-n, n - 1) for _ in range(2)] for _ in range(2)], I64)
    return b, b.node("Gather", [0, b.raw_init(ind)], {"axis": ax}, None,
                     {"axis": ax, "ind": [int(i) for i in ind.flatten()], "ishape": [2, 2]}, spec_ins=[0])


def gather_scalar(r):
    b = img(r)
    ax = r.choice([1, 2, 3])
    i = r.randint(-b.shape(0)[ax], b.shape(0)[ax] - 1)
    return b, b.node("Gather", [0, b.raw_init(np.array(i, I64))], {"axis": ax}, None,
                     {"axis": ax, "ind": [i], "ishape": []}, spec_ins=[0])


def gather_batch(r):
    b = img(r)
    return b, b.node("Gather", [0, b.raw_init(np.array([0, 0], I64))], {"axis": 0}, None,
                     {"axis": 0, "ind": [0, 0], "ishape": [2]}, spec_ins=[0])


def softmax_old(r):
    b = img(r, 1024, opset=r.choice([9, 11, 12]))
    at = {} if r.random() < 0.4 else {"axis": r.choice([1, 2, 3])}
    return b, b.node("Softmax", [0], at, "SoftmaxFlat", {"axis": at.get("axis", 1)})


def softmax_big(r):
    b = vec(r, 1024, lo=-200, hi=200)
    return b, b.node("Softmax", [0], {"axis": -1}, None, {"axis": -1})


def softmax_batch_axis(r):
    b = img(r, 1024)
    return b, b.node("Softmax", [0], {"axis": r.choice([0, -4])}, None, {"axis": 0})


def log_softmax(r):
    b = vec(r, 1024)
    return b, b.node("LogSoftmax", [0], {"axis": -1}, None, {"axis": -1})


def resize(r, at=None, sizes=True, mode=None, axes=None, batch=False, shrink=False, **over):
    b = img(r, 256, h=r.choice([3, 4]), w=r.choice([4, 5]), opset=r.choice([13, 18, 19]) if not over.get("opset") else over["opset"])
    x = start(r, b)
    s = b.shape(x)
    mode = mode or r.choice(["nearest", "linear", "cubic"])
    oh, ow = (s[2] * 2, s[3] * 2) if not shrink else (max(1, s[2] - 1), max(1, s[3] - 2))
    a = {"mode": mode, "coordinate_transformation_mode": over.get("ctm", "half_pixel"), **(at or {})}
    if axes:
        a["axes"] = axes
        tgt = [[1, s[1], oh, ow][k] for k in axes]
    else:
        tgt = [1, s[1], oh, ow]
    ins = [x, "", "", b.raw_init(np.array(tgt, I64))]
    sp = {"mode": mode, "ctm": a["coordinate_transformation_mode"], "nm": "round_prefer_floor", "oh": oh, "ow": ow,
          "hn": oh, "hd": s[2], "wn": ow, "wd": s[3], "A12": -3072, "excl": a.get("exclude_outside", 0)}
    return b, b.node("Resize", ins, a, None, sp, spec_ins=[x])


def resize_channels(r):
    """A resize of the channels too: nearest, doubling."""
    b = img(r, 1)
    s = b.shape(0)
    idx = [k // 2 for k in range(2 * s[1])]
    ins = [0, "", b.raw_init(np.array([1, 2, 1, 1], np.float32))]
    v = b.node("Resize", ins, {"mode": "nearest", "coordinate_transformation_mode": "asymmetric", "nearest_mode": "floor"},
               "Gather", {"axis": 1, "ind": idx, "ishape": [len(idx)]}, spec_ins=[0])
    return b, v


def resize_crop(r):
    b = img(r, 256, h=4, w=4)
    ins = [0, b.raw_init(np.array([0, 0, 0.25, 0.25, 1, 1, 0.75, 0.75], np.float32)), "", b.raw_init(np.array([1, b.shape(0)[1], 2, 2], I64))]
    v = b.node("Resize", ins, {"mode": "nearest", "coordinate_transformation_mode": "tf_crop_and_resize"}, "Unknown", {}, spec_ins=[0])
    b.refuse = 2
    return b, v


def resize_computed(r):
    b = img(r, 1)
    s = b.shape(0)
    t = [1, s[1], s[2] * 2, s[3] * 2]
    v = b.node("Resize", [0, "", "", b.raw_init(np.array(t, I64), "ref_target")], {"mode": "nearest", "coordinate_transformation_mode": "asymmetric",
                                                                                  "nearest_mode": "floor"}, None,
               {"mode": "nearest", "ctm": "asymmetric", "nm": "floor", "oh": t[2], "ow": t[3], "hn": t[2], "hd": s[2], "wn": t[3],
                "wd": s[3], "A12": -3072, "excl": 0}, spec_ins=[0])
    p = b.protos.pop()
    b.init_protos[:] = [i for i in b.init_protos if i.name != "ref_target"]
    half = b.raw_init(np.array([1, s[1]], I64))
    rest = b.raw_init(np.array(t[2:], I64))
    b.protos += [helper.make_node("Concat", [half, rest], ["target"], axis=0, name="cat"), p]
    p.input[3] = "target"
    return b, v


def pad_negative(r):
    b = img(r, h=5, w=5)
    x = start(r, b)
    p = [0] * 8
    p[r.choice([2, 3, 6, 7])] = -1
    p[r.choice([2, 3])] += 1
    s = b.shape(x)
    v = b.node("Pad", [x, b.raw_init(np.array(p, I64))], {}, None, {"mode": "constant", "pads": p, "value": 0}, spec_ins=[x])
    return b, v


def pad_batch(r):
    b = img(r)
    p = [r.choice([0, 1]), 0, 0, 0, 1, 0, 0, 0]
    return b, b.node("Pad", [0, b.raw_init(np.array(p, I64))], {}, None, {"mode": "constant", "pads": p, "value": 0}, spec_ins=[0])


def pad_old(r):
    b = img(r, opset=9)
    p = [0, 0, 1, 1, 0, 0, 1, 0]
    v = b.node("Pad", [0], {"pads": p, "mode": "constant", "value": 2.0}, None, {"mode": "constant", "pads": p, "value": 2}, spec_ins=[0])
    return b, v


def clip_old(r):
    b = img(r, opset=10)
    return b, b.node("Clip", [start(r, b)], {"min": -1.0, "max": 2.0}, None, {"haslo": 1, "hashi": 1, "lo": -1, "hi": 2})


def transpose_batch(r):
    b = img(r)
    perm = r.choice([[1, 0, 2, 3], [2, 0, 1, 3], [3, 2, 1, 0], [1, 2, 3, 0]])
    if r.random() < 0.4:    # the default reverses the dimensions
        n = r.randint(2, 4)
        if n < 4:
            b = Net(r, [1, *(r.randint(2, 4) for _ in range(n - 1))], 1, 2, -4, 4, opset=18)
        v = b.node("Transpose", [0], {}, None, {"perm": [*range(n)][::-1]})
    else:
        v = b.node("Transpose", [0], {"perm": perm}, None, {"perm": perm})
    return b, OPS["Relu"](b, v)


def tile_batch(r):
    b = img(r)
    reps = [2, 1, r.choice([1, 2]), 1]
    return b, b.node("Tile", [0, b.raw_init(np.array(reps, I64))], {}, None, {"reps": reps}, spec_ins=[0])


def concat_batch(r):
    b = img(r)
    x = OPS["Relu"](b, 0)
    ax = r.choice([0, -4])
    return b, b.node("Concat", [0, x], {"axis": ax}, None, {"axis": ax})


def reduce_computed_axes(r):
    b = img(r, opset=18)
    v = b.node("ReduceSum", [0, b.raw_init(np.array([2], I64), "ref_axes")], {}, None, {"axes": [2], "keep": 1, "noop": 0}, spec_ins=[0])
    p = b.protos.pop()
    b.init_protos[:] = [i for i in b.init_protos if i.name != "ref_axes"]
    f = b.raw_init(np.array([2], np.float32))
    b.protos += [helper.make_node("Cast", [f], ["axes"], to=TensorProto.INT64, name="cast"), p]
    p.input[1] = "axes"
    return b, v


def reduce_batch(op):
    def g(r):
        b = img(r, 256 if op == "ReduceMean" else 1, opset=17)
        ax = r.choice([[0], [0, 2], [0, 1, 2, 3], [-4, 3]])
        keep = r.choice([0, 1])
        if op == "ReduceSum":
            return b, b.node(op, [0, b.raw_init(np.array(ax, I64))], {"keepdims": keep}, None, {"axes": ax, "keep": keep, "noop": 0}, spec_ins=[0])
        return b, b.node(op, [0], {"axes": ax, "keepdims": keep}, None, {"axes": ax, "keep": keep, "noop": 0})
    return g


def batched(r):
    """Two samples in one tensor."""
    op = r.choice(["Conv", "Relu", "MaxPool", "Add", "Gemm", "Concat", "Transpose", "Pad", "GlobalAveragePool", "ReduceSum", "Softmax"])
    rat = 256 if op == "GlobalAveragePool" else 1024 if op == "Softmax" else 1
    if op == "Gemm":
        b = Net(r, [2, 4], 1, 2)
        return b, OPS["Gemm"](b, 0)
    b = img(r, rat, n=2)
    if op == "Conv":
        return b, conv(r, b, 0, 2, 2)
    if op == "MaxPool":
        return b, pool(b, 0, op)
    if op == "Add":
        return b, b.node("Add", [0, OPS["Relu"](b, 0)], {}, None, {})
    if op == "Concat":
        return b, b.node("Concat", [0, OPS["Relu"](b, 0)], {"axis": 1}, None, {"axis": 1})
    if op == "Transpose":
        return b, b.node(op, [0], {"perm": [0, 2, 3, 1]}, None, {"perm": [0, 2, 3, 1]})
    if op == "Pad":
        p = [0, 0, 1, 0, 0, 0, 0, 1]
        return b, b.node(op, [0, b.raw_init(np.array(p, I64))], {}, None, {"mode": "constant", "pads": p, "value": 0}, spec_ins=[0])
    if op == "ReduceSum":
        return b, b.node(op, [0, b.raw_init(np.array([2], I64))], {}, None, {"axes": [2], "keep": 1, "noop": 0}, spec_ins=[0])
    if op == "Softmax":
        return b, b.node(op, [0], {"axis": 1}, None, {"axis": 1})
    return b, OPS[op](b, 0)


def rank5(r):
    b = Net(r, [1, 2, 2, 2, 3], 1, 2)
    op = r.choice(["Relu", "Add", "Transpose", "ReduceSum", "Tile"])
    if op == "Relu":
        return b, OPS["Relu"](b, OPS["Clip"](b, 0))
    if op == "Add":
        return b, b.node("Add", [0, b.init(ints(r, r.choice([[1, 2, 1, 1, 1], [2, 3], [1, 1, 2, 1, 3]]), -3, 3))], {}, None, {})
    if op == "Transpose":
        perm = [0, *r.sample([1, 2, 3, 4], 4)]
        return b, b.node(op, [0], {"perm": perm}, None, {"perm": perm})
    if op == "Tile":
        return b, b.node(op, [0, b.raw_init(np.array([1, 2, 1, 2, 1], I64))], {}, None, {"reps": [1, 2, 1, 2, 1]}, spec_ins=[0])
    ax = r.choice([1, 2, 3, 4])
    return b, b.node(op, [0, b.raw_init(np.array([ax], I64))], {}, None, {"axes": [ax], "keep": 1, "noop": 0}, spec_ins=[0])


def rank3(r):
    """Tensors of rank three, whose dimensions are read as those of an image."""
    b = Net(r, [1, r.randint(2, 4), r.randint(2, 4)], 1, 2)
    op = r.choice(["Transpose", "ReduceSum", "Concat", "Add", "Gather", "MatMul", "ReduceMax"])
    s = b.shape(0)
    if op == "Transpose":
        return b, b.node(op, [0], {"perm": [0, 2, 1]}, None, {"perm": [0, 2, 1]})
    if op in ("ReduceSum", "ReduceMax"):
        ax, keep = r.choice([1, 2, -1]), r.choice([0, 1])
        if op == "ReduceMax":
            return b, b.node(op, [0], {"axes": [ax], "keepdims": keep}, None, {"axes": [ax], "keep": keep, "noop": 0})
        return b, b.node(op, [0, b.raw_init(np.array([ax], I64))], {"keepdims": keep}, None, {"axes": [ax], "keep": keep, "noop": 0}, spec_ins=[0])
    if op == "Concat":
        ax = r.choice([1, 2, -1, -2])
        return b, b.node(op, [0, OPS["Relu"](b, 0)], {"axis": ax}, None, {"axis": ax})
    if op == "Add":
        return b, b.node(op, [0, b.init(ints(r, r.choice([[s[2]], [s[1], 1], [1, s[1], 1]]), -3, 3))], {}, None, {})
    if op == "Gather":
        ax = r.choice([1, 2])
        ind = [r.randint(-s[ax], s[ax] - 1) for _ in range(3)]
        return b, b.node(op, [0, b.raw_init(np.array(ind, I64))], {"axis": ax}, None, {"axis": ax, "ind": ind, "ishape": [3]}, spec_ins=[0])
    w = b.init(ints(r, [s[2], 3], -2, 2))
    return b, b.node(op, [0, w], {}, None, {})


def maxpool_indices(r):
    b = img(r)
    v = pool(b, start(r, b), "MaxPool", 2, 2, 2, 2)
    b.protos[-1].output.append("pool_indices")
    return b, v


def dropout_training(r):
    """Dropout with its ratio and mode as operands (inference)."""
    b = img(r)
    x = start(r, b)
    v = b.node("Dropout", [x, b.raw_init(np.array(0.5, np.float32)), b.raw_init(np.array(False))], {}, None, {}, spec_ins=[x])
    if r.random() < 0.5:
        b.protos[-1].output.append("mask")
    return b, OPS["Relu"](b, v)


def where(r):
    b = img(r)
    x = start(r, b)
    v = b.node("Max", [x, b.init(np.zeros([1], int))], {}, None, {})
    p = b.protos.pop()
    b.protos += [helper.make_node("Greater", [b.name_of[x], p.input[1]], ["mask"], name="greater"),
                 helper.make_node("Where", ["mask", b.name_of[x], p.input[1]], [p.output[0]], name="where")]
    return b, v


def cast(r):
    b = img(r)
    x = start(r, b)
    v = b.node("Identity", [x], {}, None, {})
    p = b.protos.pop()
    b.protos += [helper.make_node("Cast", [b.name_of[x]], ["as_int"], to=TensorProto.INT32, name="cast1"),
                 helper.make_node("Cast", ["as_int"], [p.output[0]], to=TensorProto.FLOAT, name="cast2")]
    return b, v


def int_div(r):
    b = Net(r, [1, 6], 1, 2, 1, 9, dtype=np.int32)
    d = b.init(ints(r, [6], 1, 3))
    if r.random() < 0.5:
        return b, b.node("Add", [0, d], {}, None, {})
    v = b.node("Div", [0, d], {}, "Unknown", {}, spec_ins=[0])
    b.refuse = 2
    return b, v


def foreign(r):
    """An operator of another domain which bears the name of a standard one."""
    b = img(r)
    op = r.choice(["Relu", "Add", "Conv", "FusedThing", "Dropout", "Transpose"])
    v = OPS["Relu"](b, 0)
    p = b.protos[-1]
    p.op_type, p.domain = op, "com.example"
    if op == "Conv":
        p.input.append(b.raw_init(np.ones([1, b.shape(0)[1], 1, 1], np.float32)))
    if op == "Add":
        p.input.append(b.raw_init(np.ones([1], np.float32)))
    b.domains = [helper.make_opsetid("com.example", 1)]
    b.refuse = 2
    b.vinfo = [v]
    return b, v


def lstm(r):
    n, i, h = 3, 2, 2
    b = Net(r, [1, n, i], 1, 2)
    w, rr = [b.raw_init(np.array(ints(r, [1, 4 * h, k], -1, 1), np.float32)) for k in (i, h)]
    x = b.node("Transpose", [0], {"perm": [1, 0, 2]}, "Unknown", {})
    v = b.node("LSTM", [x, w, rr], {"hidden_size": h}, "Unknown", {}, spec_ins=[x])
    b.refuse = 2
    return b, v


def gru(r):
    b = Net(r, [3, 1, 2], 1, 2)
    w, rr = [b.raw_init(np.array(ints(r, [1, 6, 2], -1, 1), np.float32)) for _ in range(2)]
    v = b.node(r.choice(["GRU"]), [0, w, rr], {"hidden_size": 2}, "Unknown", {}, spec_ins=[0])
    b.refuse = 2
    return b, v


def conditional(r):
    """A node holding a subgraph."""
    b = img(r)
    v = OPS["Relu"](b, 0)
    p = b.protos.pop()
    body = helper.make_graph([p], "then", [], [helper.make_tensor_value_info(p.output[0], TensorProto.FLOAT, None)])
    other = helper.make_graph([helper.make_node("Identity", [b.name_of[0]], ["else_out"], name="i")], "else", [],
                              [helper.make_tensor_value_info("else_out", TensorProto.FLOAT, None)])
    c = b.raw_init(np.array(True))
    b.protos.append(helper.make_node("If", [c], ["if_out"], then_branch=body, else_branch=other, name="if"))
    b.name_of[v] = "if_out"
    return b, v


CONSTRUCTS = {
    "conv_strides": window("conv_strides", 0, lambda r, b, x: conv(r, b, x, 2, 2, **win_pair("sh", "sw", 1, 3)(r))),
    "conv_dilations": window("conv_dilations", 0, lambda r, b, x: conv(r, b, x, 2, 2, **win_pair("dh", "dw", 1, 2)(r))),
    "conv_kernel_attr": window("conv_kernel_attr", 0, lambda r, b, x: conv(r, b, x, r.randint(1, 3), r.randint(1, 3), drop=("kernel_shape",))),
    "conv_defaults": window("conv_defaults", 0, lambda r, b, x: conv(
        r, b, x, r.randint(1, 3), r.randint(1, 3), drop=("kernel_shape", "strides", "pads", "dilations", "group"))),
    "conv_groups": window("conv_groups", 0, lambda r, b, x: conv(r, b, b.node("Concat", [x, x], {"axis": 1}, None, {"axis": 1}), 2, 2, group=2,
                                                                   oc=r.choice([2, 4]))),
    "conv_empty_bias": conv_empty_bias, "conv_1d": conv_1d,
    "conv_computed_weights": conv_computed_weights, "conv_computed_bias": conv_computed_bias,
    "conv_transpose": conv_transpose,
    "pool_kernel": window("pool_kernel", 1, lambda r, b, x: pool(b, x, any_pool(r), **win_pair("kh", "kw", 1, 3)(r))),
    "pool_strides": window("pool_strides", 1, lambda r, b, x: pool(b, x, any_pool(r), **win_pair("sh", "sw", 1, 3)(r))),
    "pool_dilations": window("pool_dilations", 0, lambda r, b, x: pool(b, x, "MaxPool", **r.choice([{"dh": 2, "dw": 2}, {"dh": 2}, {"dw": 2}]))),
    "pool_ceil": window("pool_ceil", 1, lambda r, b, x: pool(b, x, any_pool(r), 3, 3, 2, 2, ceil=1)),
    "pool_ceil2": window("pool_ceil2", 1, lambda r, b, x: pool(b, x, any_pool(r), 2, 2, 2, 2, ceil=1)),
    "pool_cip": window("pool_cip", 1, lambda r, b, x: pool(b, x, "AveragePool", 3, 3, 1, 1, r.choice([(1, 1, 1, 1), (1, 0, 0, 1), (0, 1, 0, 0), (0, 0, 0, 0)]), cip=1)),
    "pool_cip_same": window("pool_cip_same", 1, lambda r, b, x: pool(b, x, "AveragePool", 3, 3, 1, 1, cip=1, auto=r.choice(["SAME_UPPER", "SAME_LOWER", "VALID"]))),
    "pool_indices": maxpool_indices,
    "pool_storage": window("pool_storage", 0, lambda r, b, x: pool(b, x, "MaxPool", 2, 2, 2, 2, storage_order=1)),
    "pool_defaults": window("pool_defaults", 1, lambda r, b, x: pool(b, x, any_pool(r), drop=("strides", "pads"))),
    "global_max": global_max, "lrn": lrn, "instance_norm": instance_norm,
    "abs": scalar("Abs", 1), "neg": scalar("Neg", 1), "sign": scalar("Sign", 1),
    "floor": scalar("Floor"), "ceil": scalar("Ceil"), "sqrt": scalar("Sqrt", lo=1, hi=9), "reciprocal": scalar("Reciprocal", lo=1, hi=4),
    "elu": scalar("Elu", 1024, attrs={"alpha": 1.0}, sattrs={"an": 1, "ad": 1}), "selu": scalar("Selu", 1024),
    "softplus": scalar("Softplus", 1024, lo=-2, hi=2), "softsign": scalar("Softsign"),
    "hard_sigmoid": scalar("HardSigmoid", spec="HardSigmoidA", attrs={"alpha": 0.25, "beta": 0.5}, sattrs={"an": 1, "ad": 4, "beta": lambda b: b.sc // 2}),
    "hard_swish": scalar("HardSwish"), "gelu": scalar("Gelu", 1024),
    "thresholded_relu": scalar("ThresholdedRelu", attrs={"alpha": 1.0}, sattrs={"th": lambda b: b.sc}),
    "prelu": prelu, "sum": sum_n, "pow": power, "identity": identity,
    "slice": slices, "split": split, "squeeze": squeeze, "expand": expand, "upsample": upsample,
    "depth_to_space": space("DepthToSpace"), "space_to_depth": space("SpaceToDepth"),
    "argmax": argmax, "reduce_l1": reduced("ReduceL1"), "reduce_sumsq": reduced("ReduceSumSquare"), "reduce_l2": reduced("ReduceL2"),
    "dynamic_reshape": dynamic_reshape, "shape_as_value": shape_as_value, "shape_direct": shape_direct,
    "matmul_vector": matmul_vector, "gemm_computed": gemm_computed, "gemm_computed_bias": gemm_computed_bias, "bn_computed": bn_computed, "clip_computed": clip_computed,
    "gather_computed": gather_computed, "gather_nd_indices": gather_nd_indices, "gather_scalar": gather_scalar, "gather_batch": gather_batch,
    "softmax_old": softmax_old, "softmax_big": softmax_big, "softmax_batch_axis": softmax_batch_axis, "log_softmax": log_softmax,
    "resize_exclude": lambda r: resize(r, {"exclude_outside": 1}, mode="cubic"),
    "resize_antialias": lambda r: no_meaning(resize(r, {"antialias": 1}, mode=r.choice(["linear", "cubic"]), shrink=True, opset=18)),
    "resize_aspect": lambda r: no_meaning(resize(r, {"keep_aspect_ratio_policy": r.choice(["not_larger", "not_smaller"])}, mode="nearest", opset=18, shrink=True)),
    "resize_axes": lambda r: resize(r, axes=r.choice([[2, 3], [3, 2], [1, 2, 3]]), mode="nearest", opset=18),
    "resize_shrink": lambda r: resize(r, mode=r.choice(["nearest", "linear"]), shrink=True),
    "resize_channels": resize_channels, "resize_crop": resize_crop, "resize_computed": resize_computed,
    "pad_negative": pad_negative, "pad_batch": pad_batch, "pad_old": pad_old, "clip_old": clip_old,
    "transpose_batch": transpose_batch, "tile_batch": tile_batch, "concat_batch": concat_batch,
    "reduce_batch": lambda r: reduce_batch(r.choice(["ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean"]))(r),
    "reduce_computed_axes": reduce_computed_axes,
    "batched": batched, "rank5": rank5, "rank3": rank3, "dropout_operands": dropout_training, "where": where, "cast": cast,
    "int_div": int_div, "foreign": foreign, "lstm": lstm, "gru": gru, "conditional": conditional,
}


# Constructs handled on purpose: a refusal is a failure
KEPT = {"conv_kernel_attr", "conv_defaults", "conv_empty_bias", "pool_indices", "pool_storage", "pool_defaults", "dynamic_reshape",
        "matmul_vector", "gather_scalar", "softmax_big", "resize_shrink", "pad_negative", "clip_old", "reduce_batch", "rank3",
        "dropout_operands", "json_softmax_conv", "json_first", "json_three", "torch_ranks", "torch_flatten"}


def no_meaning(bv):
    bv[0].refuse = 2
    return bv


def build(name, i):
    for t in range(60):
        r = Rand(f"c15-{name}-{i}-{t}-{seed()}")
        r.i = i
        try:
            if name in JSON or name in TORCH:
                return (JSON.get(name) or TORCH.get(name))(r)
            b, v = CONSTRUCTS[name](r)
            if r.random() < 0.35 and not hasattr(b, "hand") and not getattr(b, "refuse", 0) and name != "shape_direct":
                v = OPS[r.choice(["Relu", "Clip"])](b, v)
            return b, v
        except Reject:
            continue
        except Exception as e:      # not a module PyTorch can export
            if not type(e).__module__.startswith("torch."):
                raise
    return None


def one(arg):
    name, i = arg
    r = build(name, i)
    if r is None:
        return None
    b, v = r[:2]
    m = b.model(v) if len(r) == 2 else r[2]
    for d in getattr(b, "domains", []):
        m.opset_import.append(d)
    for k in getattr(b, "vinfo", []):
        m.graph.value_info.append(helper.make_tensor_value_info(b.name_of[k], TensorProto.FLOAT, b.shape(k)))
    case = b.case(f"{name}-{i}", v)
    if hasattr(b, "hand"):
        case.update(b.hand)
    case["refuse"] = getattr(b, "refuse", 0 if name in KEPT else 1)
    case["tol"] = 2
    kw = {"dtype": b.dtype, "optimization": i % 3 == 2}
    d = Path(tempfile.mkdtemp(prefix="acv-cst-", dir="/tmp"))
    try:
        if name in JSON:
            m = d / "model.json"
            m.write_text(r[2])
            kw["dtype"] = np.float64 if '"dtype": "float64"' in r[2] else np.float32
        elif name in TORCH:
            kw = {"dtype": np.float64 if "torch.float64" in str(r[2]) else np.float32}
        case["channels"] = full_run(m, case, channels=("python", "c"), **kw)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if os.environ.get("ACV_SELFCHECK") and case["refuse"] < 2:
        case["channels"].append({"name": "standard", "status": "ok", "lay": "as_is",
                                 "out": [[int(round(float(q) * 16 * b.sc)) for q in np.asarray(w).flatten()] for w in b.val[v]]})
    return case


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("one network per construct outside (or at the edge of) what the documentation lists as implemented, alone or after "
                "another layer; accepted networks must compute the meaning the specification gives; non-trivial: outputs not constant")
    per = 6 if quick else 40
    import torch
    torch.set_num_threads(1)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):  # warm up before forking
        torch.export.export(torch.nn.Linear(1, 1), (torch.zeros(1, 1),))
    from torch._inductor import config  # noqa: F401
    every = [*CONSTRUCTS, *JSON, *TORCH]
    width = {n: getattr({**JSON, **TORCH}.get(n), "width", 1) for n in every}
    args = [(name, i) for name in every for i in range(per if width[name] == 1 else max(per, width[name] if quick else 4 * width[name]))]
    cases = []
    for a, (st, v) in zip(args, pool_map(one, args, 120)):
        if st == "error":
            raise MachineryError(f"{a}: {v}")
        if st != "ok":
            chk.violation(f"{a}: {st} {v}", {"case": repr(a)})
        elif v is not None:
            cases.append(v)
    missing = [n for n in every if not any(c["id"].startswith(n + "-") for c in cases)]
    if missing:
        raise MachineryError(f"no case of {missing}")
    by: dict = {}
    for c in cases:
        n = c["id"].rsplit("-", 1)[0]
        by.setdefault(n, {})
        st = c["channels"][0]["status"]
        by[n][st] = by[n].get(st, 0) + 1
    chk.cov["constructs"] = {n: ", ".join(f"{k} {v}" for k, v in d.items()) for n, d in by.items()}
    judge(chk, cases, key=lambda c, b: c["id"].rsplit("-", 1)[0])
