"""C15, the constructs of the other formats: Keras JSON descriptions and exported PyTorch modules."""
from __future__ import annotations

import random

import numpy as np
from onnx import TensorProto, helper

from acv_nets import OPS, Reject, ints
from checks.c12 import Keras, Torch

I64 = np.int64


# ------------------------------------------------------------------ Keras JSON
def kimg(r, sc=1, first=False):
    k = Keras(r, 0, sc=sc, rank=4, first=first)
    if r.random() < 0.4:
        kconv(k)
    return k


def kvec(r, sc=1):
    return Keras(r, 0, sc=sc, rank=2)


def last(k):
    return len(k.val) - 1


def kconv(k, act="linear", kh=2, kw=2, sh=1, sw=1, dh=1, dw=1, pad="same", group=1, oc=None, cls="Conv2D", drop=(), **over):
    r, b = k.r, k.b
    p = last(k)
    x = k.val[p]
    s = b.shape(x)
    oc = oc or r.randint(2, 3)
    if pad == "valid" and ((kh - 1) * dh + 1 > s[2] or (kw - 1) * dw + 1 > s[3]):
        raise Reject("kernel")
    w, bi = ints(r, [oc, s[1] // group, kh, kw], -2, 2, k.sc), ints(r, [oc], -3, 3, k.sc)
    auto = "SAME_UPPER" if pad == "same" else "VALID"
    v = b.node("Conv", [x, b.init(w), b.init(bi)] if "biases" not in drop else [x, b.init(w)],
               {"kernel_shape": [kh, kw], "strides": [sh, sw], "dilations": [dh, dw], "group": group, "auto_pad": auto}, None,
               {"sh": sh, "sw": sw, "dh": dh, "dw": dw, "group": group, "auto": auto, "pads": [0] * 4})
    v = after(k, v, act)
    k.add(cls, v, [p], {"filters": oc, "kernel_size": [kh, kw], "strides": [sh, sw], "padding": pad, "groups": group,
                        "data_format": "channels_first" if k.first else "channels_last", "dilation_rate": [dh, dw],
                        "activation": act, "use_bias": "biases" not in drop, **over},
          **{n: q for n, q in (("weights", (np.moveaxis(w, 0, -1) / k.sc).tolist()), ("biases", (bi / k.sc).tolist())) if n not in drop})


def kdense(k, act="linear", n=None, drop=(), over=None):
    r, b = k.r, k.b
    p = last(k)
    x = k.val[p]
    m = n or r.randint(2, 5)
    w, bi = ints(r, [b.shape(x)[1], m], -2, 2, k.sc), ints(r, [m], -3, 3, k.sc)
    v = b.node("Gemm", [x, b.init(w), b.init(bi)] if "biases" not in drop else [x, b.init(w)], {}, None,
               {"tA": 0, "tB": 0, "an": 1, "ad": 1, "bn": 1, "bd": 1})
    v = after(k, v, act)
    k.add("Dense", v, [p], {"units": m, "activation": act, "use_bias": "biases" not in drop, **(over or {})},
          **{q: z for q, z in (("weights", (w / k.sc)[None, None].tolist()), ("biases", (bi / k.sc).tolist())) if q not in drop})


ACT = {"elu": ("Elu", {"alpha": 1.0}, {"an": 1, "ad": 1}), "selu": ("Selu", {}, {}), "softsign": ("Softsign", {}, {}),
       "softplus": ("Softplus", {}, {}), "exponential": ("Exp", {}, {}), "linear": None, None: None,
       "relu": ("Relu", {}, {}), "leaky_relu": ("LeakyRelu", {"alpha": 0.2}, {"an": 1, "ad": 5}),
       "sigmoid": ("Sigmoid", {}, {}), "tanh": ("Tanh", {}, {}), "softmax": ("Softmax", {"axis": 1}, {"axis": 1})}
OTHERS = ["relu6", "gelu", "swish", "silu", "hard_sigmoid", "mish", "hard_silu", "log_softmax", "Relu", "", {"class_name": "LeakyReLU", "config": {"negative_slope": 0.5}}]


def after(k, v, act):
    """The activation applied to the result of a layer."""
    if not isinstance(act, str | None) or act not in ACT:
        k.b.refuse = 2
        return v
    if ACT[act] is None:
        return v
    op, at, sp = ACT[act]
    if k.sc < 1024 and op not in ("Relu",):
        raise Reject("scale")
    if max(np.abs(q).max() for q in k.b.val[v]) > 6 and op in ("Exp", "Elu", "Selu", "Softplus"):
        raise Reject("large")
    return k.b.node(op, [v], at, None, sp)


def kdone(k):
    if k.b.shape(k.val[-1])[1:] == k.b.shape(k.val[0])[1:] and not k.b.nodes:
        raise Reject("empty")
    return k.finish(k.val[-1])


class Rand(random.Random):
    """A generator which knows the number of the instance, to go through a menu in turn."""

    i = 0

    def cycle(self, menu):
        return menu[self.i % len(menu)]


def wide(n, f):
    """A construct with a menu of n forms."""
    f.width = n
    return f


ACTS = [q for q in ACT if q not in ("linear", "softmax")] + OTHERS


def k_act(r):
    k = Keras(r, 0, sc=1024, rank=r.choice([2, 4]))
    a = r.cycle(ACTS)
    (kconv if k.hwc else kdense)(k, a)
    return kdone(k)


def k_softmax_conv(r):
    k = kimg(r, 1024, first=r.random() < 0.3)
    kconv(k, "linear" if k.first else "softmax")
    if k.first:      # Keras takes the last axis whatever the data format
        p = last(k)
        k.val[p] = k.b.node("Softmax", [k.val[p]], {"axis": 3}, None, {"axis": 3})
        k.layers[-1]["config"]["activation"] = "softmax"
    return kdone(k)


def k_attr(f):
    def g(r):
        k = kimg(r, r.choice([1, 256]))
        f(r, k)
        return kdone(k)
    return g


def two(r, lo=1, hi=3):
    a = r.randint(lo, hi)
    return a, r.choice([q for q in range(lo, hi + 1) if q != a])


def kpool(k, kh=2, kw=2, sh=1, sw=1, pad="same", cls=None, **over):
    r, b = k.r, k.b
    cls = cls or r.choice(["MaxPooling2D", "AveragePooling2D"] if k.sc > 1 else ["MaxPooling2D"])
    p = last(k)
    x = k.val[p]
    s = b.shape(x)
    if pad == "valid" and (kh > s[2] or kw > s[3]):
        raise Reject("kernel")
    auto = "SAME_UPPER" if pad == "same" else "VALID"
    v = b.node("AveragePool" if cls[0] == "A" else "MaxPool", [x], {"kernel_shape": [kh, kw], "strides": [sh, sw], "auto_pad": auto}, None,
               {"kh": kh, "kw": kw, "sh": sh, "sw": sw, "auto": auto, "pads": [0] * 4, "cip": 0})
    k.add(cls, v, [p], {"pool_size": [kh, kw], "padding": pad, "strides": [sh, sw],
                        "data_format": "channels_first" if k.first else "channels_last", **over})


def k_first(r):
    """A model whose tensors are in the channels-first format."""
    k = Keras(r, 0, sc=r.choice([1, 256]), rank=4, first=True)
    for _ in range(r.randint(1, 3)):
        r.choice([kconv, kpool, kpad, kbn])(k)
    if r.random() < 0.5:
        x = k.val[-1]
        v = k.b.node("Flatten", [x], {}, None, {"shape": [1, int(np.prod(k.b.shape(x)[1:]))]})
        k.add("Flatten", v, [last(k)], {"data_format": "channels_first"})
        kdense(k, r.choice(["linear", "relu"]))
    return kdone(k)


def kpad(k, mixed=False):
    r, b = k.r, k.b
    p = last(k)
    x = k.val[p]
    t, le, bo, ri = (r.randint(0, 2) for _ in range(4))
    pads = [0, 0, t, le, 0, 0, bo, ri]
    if mixed:      # the layer takes the tensor [H, W, C] for a [C, H, W] one: pads W and C
        pads = [0, le, 0, t, 0, ri, 0, bo]
    v = b.node("Pad", [x, b.raw_init(np.array(pads, I64))], {"mode": "constant"}, None, {"mode": "constant", "pads": pads, "value": 0}, spec_ins=[x])
    k.add("ZeroPadding2D", v, [p], {"padding": [[t, bo], [le, ri]],
                                    "data_format": "channels_first" if k.first or mixed else "channels_last"})


def kbn(k, axis=None, drop=()):
    r, b = k.r, k.b
    p = last(k)
    x = k.val[p]
    s = b.shape(x)
    sc = k.sc
    if sc < 256:
        raise Reject("scale")
    rank = len(s)
    ax = axis if axis is not None else (1 if k.first or rank == 2 else 3)
    nchw = ax % rank if k.first or rank == 2 else {1: 2, 2: 3, 3: 1}[ax % rank]
    c = s[nchw]
    q = {"gamma": np.array([r.choice([-1, 1, 2]) * sc for _ in range(c)]), "beta": ints(r, [c], -3, 3, sc),
         "moving_mean": ints(r, [c], -2, 2, sc), "moving_var": np.array([r.choice([sc // 4, sc, 4 * sc]) for _ in range(c)])}
    if "gamma" in drop:
        q["gamma"][:] = sc
    if "beta" in drop:
        q["beta"][:] = 0
    perm = {1: [0, 1, 2, 3], 2: [0, 2, 1, 3], 3: [0, 3, 2, 1]}[nchw]
    if rank == 2:
        y = b.node("Reshape", [x, b.raw_init(np.array([1, c, 1, 1], I64))], {}, None, {"shape": [1, c, 1, 1]}, spec_ins=[x])
    else:
        y = b.node("Transpose", [x], {"perm": perm}, None, {"perm": perm})
    v = b.node("BatchNormalization", [y, *[b.init(z) for z in q.values()]], {"epsilon": 1 / sc}, None, {"eps": 1})
    v = (b.node("Reshape", [v, b.raw_init(np.array([1, c], I64))], {}, None, {"shape": [1, c]}, spec_ins=[v]) if rank == 2
         else b.node("Transpose", [v], {"perm": perm}, None, {"perm": perm}))
    kax = ax - rank if r.random() < 0.3 else ax
    k.add("BatchNormalization", v, [p], {"axis": [kax] if r.random() < 0.7 else kax, "epsilon": 1 / sc, "momentum": 0.9,
                                         "center": "beta" not in drop, "scale": "gamma" not in drop},
          **{n: (z / sc).tolist() for n, z in q.items() if n not in drop})


def k_layer_format(r):
    """A layer whose data format is not the one of the model: Keras exchanges the axes of its input."""
    k = Keras(r, 0, sc=256, rank=4)
    p, x = 0, k.val[0]
    cls = r.choice(["pool", "flatten", "pad"])
    if cls == "pad":
        kpad(k, mixed=True)
        return kdone(k)
    s = k.b.shape(x)      # [1, C, H, W] of a tensor written [H, W, C]
    if cls == "flatten":
        # Keras flattens a channels-first tensor [c, h, w] as if it were [h, w, c]
        v = k.b.node("Transpose", [x], {"perm": [0, 3, 1, 2]}, None, {"perm": [0, 3, 1, 2]})
        v = k.b.node("Flatten", [v], {}, None, {"shape": [1, int(np.prod(s[1:]))]})
        k.add("Flatten", v, [p], {"data_format": "channels_first"})
        k.b.refuse = 2
        return kdone(k)
    y = k.b.node("Transpose", [x], {"perm": [0, 2, 3, 1]}, None, {"perm": [0, 2, 3, 1]})
    if min(s[1], s[3]) < 2:
        raise Reject("small")
    v = k.b.node("MaxPool", [y], {"kernel_shape": [2, 2], "strides": [1, 1]}, None,
                 {"kh": 2, "kw": 2, "sh": 1, "sw": 1, "auto": "NOTSET", "pads": [0] * 4, "cip": 0})
    v = k.b.node("Transpose", [v], {"perm": [0, 3, 1, 2]}, None, {"perm": [0, 3, 1, 2]})
    k.add("MaxPooling2D", v, [p], {"pool_size": [2, 2], "padding": "valid", "strides": [1, 1], "data_format": "channels_first"})
    return kdone(k)


CLASSES4 = {"GlobalAveragePooling2D": {}, "GlobalMaxPooling2D": {"keepdims": True}, "UpSampling2D": {"scale": [2, 2], "interpolation": "nearest"},
            "DepthwiseConv2D": {"kernel_size": [2, 2], "depth_multiplier": 1, "strides": [1, 1]}, "Conv2DTranspose": {"filters": 2},
            "SeparableConv2D": {"filters": 2}, "Cropping2D": {"cropping": [[1, 0], [0, 1]]}, "Permute": {"dims": [2, 1, 3]},
            "Activation": {"activation": "relu"}, "ReLU": {"max_value": 6.0, "negative_slope": 0.0, "threshold": 0.0},
            "LeakyReLU": {"alpha": 0.3}, "PReLU": {}, "ELU": {"alpha": 1.0}, "ThresholdedReLU": {"theta": 1.0}, "Softmax": {"axis": -1},
            "Rescaling": {"scale": 0.5, "offset": 1.0}, "Normalization": {"axis": -1}, "LayerNormalization": {"axis": [3]}, "UnitNormalization": {},
            "GroupNormalization": {"groups": 1}, "Resizing": {"height": 2, "width": 2}, "CenterCrop": {"height": 2, "width": 2},
            "Lambda": {}, "TimeDistributed": {}, "Conv3D": {}, "ConvLSTM2D": {}, "Masking": {}, "Functional": {}, "Sequential": {}, "MyLayer": {}}
CLASSES2 = {"Activation": {"activation": "relu"}, "ReLU": {}, "LeakyReLU": {"alpha": 0.3}, "Softmax": {"axis": -1}, "RepeatVector": {"n": 2},
            "LayerNormalization": {"axis": [1]}, "Embedding": {}, "Discretization": {}, "Rescaling": {"scale": 0.5}, "Lambda": {}, "LSTM": {"units": 2},
            "GRU": {"units": 2}, "SimpleRNN": {"units": 2}, "MyLayer": {}, "EinsumDense": {}, "Bidirectional": {}}


CLASSES = [(4, c) for c in CLASSES4] + [(2, c) for c in CLASSES2]


def k_class(r):
    """A layer of a class which is not implemented (its result is given the shape of its operand)."""
    rank, cls = r.cycle(CLASSES)
    k = Keras(r, 0, sc=1, rank=rank)
    (kconv if k.hwc else kdense)(k)
    menu = CLASSES4 if k.hwc else CLASSES2
    x = k.val[-1]
    v = k.b.node("Relu", [x], {}, None, {})
    k.add(cls, v, [last(k)], dict(menu[cls]))
    if r.random() < 0.5:
        (kconv if k.hwc else kdense)(k)
    k.b.refuse = 2
    return kdone(k)


def k_merge_class(r):
    k = kvec(r)
    kdense(k)
    kdense(k, n=k.b.shape(k.val[-1])[1])
    v = k.b.node("Mul", [k.val[1], k.val[2]], {}, None, {})
    k.add(r.cycle(["Dot", "Attention", "MultiHeadAttention", "Mul", "Sum"]), v, [1, 2], {"axes": 1})
    k.b.refuse = 2
    return kdone(k)


def k_dense_multi(r):
    """A Dense layer over the last dimension of an image."""
    k = Keras(r, 0, sc=1, rank=4)
    x = k.val[0]
    b = k.b
    m = r.randint(1, 3)
    c = b.shape(x)[1]
    w, bi = ints(r, [m, c, 1, 1], -2, 2), ints(r, [m], -3, 3)
    v = b.node("Conv", [x, b.init(w), b.init(bi)], {"kernel_shape": [1, 1]}, None,
               {"sh": 1, "sw": 1, "dh": 1, "dw": 1, "group": 1, "auto": "NOTSET", "pads": [0] * 4})
    k.add("Dense", v, [0], {"units": m, "activation": "linear", "use_bias": True},
          weights=w[:, :, 0, 0].T[None, None].tolist(), biases=bi.tolist())
    return kdone(k)


def k_bn(r):
    k = kimg(r, 256)
    kbn(k, drop=r.cycle([("gamma",), ("beta",), ("gamma", "beta")]))
    return kdone(k)


def k_bn_axis(r):
    """The dimension which is normalised, mostly as large as the one of the channels."""
    k = kimg(r, 256)
    s = k.b.shape(k.val[-1])
    axis = r.cycle([1, 2, 1, 2, -2, -3])
    if r.random() < 0.8 and s[1] != s[2 if axis in (1, -3) else 3]:
        raise Reject("square")
    kbn(k, axis=axis)
    return kdone(k)


def k_nobias(r):
    k = Keras(r, 0, sc=1, rank=r.choice([2, 4]))
    (kconv if k.hwc else kdense)(k, drop=("biases",))
    return kdone(k)


def k_reshape(r):
    """A Reshape of or to a tensor with several channels, in the channels-last format."""
    b = None
    k = Keras(r, 0, sc=1, rank=4)
    b = k.b
    x = k.val[-1]
    s = b.shape(x)
    y = b.node("Transpose", [x], {"perm": [0, 2, 3, 1]}, None, {"perm": [0, 2, 3, 1]})
    n = int(np.prod(s[1:]))
    h = r.choice([d for d in range(1, n + 1) if n % d == 0])
    w = r.choice([d for d in range(1, n // h + 1) if (n // h) % d == 0])
    t = r.choice([[1, h, w, n // h // w], [1, n]])
    y = b.node("Reshape", [y, b.raw_init(np.array(t, I64))], {}, None, {"shape": t}, spec_ins=[y])
    if len(t) == 4:
        y = b.node("Transpose", [y], {"perm": [0, 3, 1, 2]}, None, {"perm": [0, 3, 1, 2]})
    k.add("Reshape", y, [0], {"target_shape": t[1:]})
    if len(t) == 2:
        kdense(k)
    elif r.random() < 0.6:
        kconv(k)
    return kdone(k)


def k_to_image(r):
    """A vector reshaped to an image."""
    k = Keras(r, 0, sc=1, rank=2)
    kdense(k, n=r.choice([4, 8, 12]))
    b = k.b
    x = k.val[-1]
    n = b.shape(x)[1]
    t = r.choice([[1, 2, 2, n // 4], [1, 2, n // 2, 1], [1, 1, 1, n], [1, n, 1, 1], [1, 4, n // 4, 1]])
    y = b.node("Reshape", [x, b.raw_init(np.array(t, I64))], {}, None, {"shape": t}, spec_ins=[x])
    y = b.node("Transpose", [y], {"perm": [0, 3, 1, 2]}, None, {"perm": [0, 3, 1, 2]})
    k.add("Reshape", y, [1], {"target_shape": t[1:]})
    if r.random() < 0.6:
        kconv(k)
    return kdone(k)


MERGE = {"Add": "Add", "Multiply": "Mul", "Subtract": "Sub", "Maximum": "Max", "Minimum": "Min", "Average": "Mean"}


def k_broadcast(r):
    """Operands of different shapes, of the same rank or not."""
    sc = r.choice([1, 256])
    k = Keras(r, 0, sc=sc, rank=4)
    b = k.b
    x = k.val[0]
    s = b.shape(x)
    cls = r.choice(["Add", "Multiply", "Subtract", "Maximum", "Minimum"] + (["Average"] if sc > 1 else []))
    style = r.choice(["channel", "plane", "vector", "vector", "scalar"])
    if style == "channel":        # [1, 1, C]
        kpool(k, s[2], s[3], pad="valid", cls="MaxPooling2D")
    elif style == "plane":        # [H, W, 1]
        kconv(k, oc=1)
    elif style == "scalar":
        kconv(k, kh=s[2], kw=s[3], pad="valid", oc=1)
    else:                         # [n] against [H, W, C]: the last dimension of the channels-last tensor
        y = b.node("Transpose", [x], {"perm": [0, 2, 3, 1]}, None, {"perm": [0, 2, 3, 1]})
        y = b.node("Flatten", [y], {}, None, {"shape": [1, int(np.prod(s[1:]))]})
        k.add("Flatten", y, [0], {"data_format": "channels_last"})
        kdense(k, n=s[1])
    y = k.val[-1]
    q = last(k)
    if style == "vector":
        y = b.node("Reshape", [y, b.raw_init(np.array([1, s[1], 1, 1], I64))], {}, None, {"shape": [1, s[1], 1, 1]}, spec_ins=[y])
    prev = [0, q]
    vs = [x, y]
    if r.random() < 0.5:
        prev.reverse()
        vs.reverse()
    if cls == "Multiply" and sc > 1 and np.prod([max(np.abs(w).max() for w in b.val[z]) * sc for z in vs]) > 2**30:
        raise Reject("mul overflow")
    v = b.node(MERGE[cls], vs, {}, None, {})
    k.add(cls, v, prev, {})
    return kdone(k)


def k_three(r):
    """Three operands."""
    k = Keras(r, 0, sc=1, rank=4)
    kconv(k, oc=k.b.shape(k.val[0])[1])
    kconv(k, oc=k.b.shape(k.val[0])[1])
    b = k.b
    cls = r.choice(["Multiply", "Subtract"])
    y = b.node(MERGE[cls], [k.val[0], k.val[1]], {}, None, {})
    v = b.node(MERGE[cls], [y, k.val[2]], {}, None, {})
    k.add(cls, v, [0, 1, 2], {})
    return kdone(k)


def k_two_inputs(r):
    k = kvec(r)
    kdense(k)
    k.layers.insert(1, {"class_name": "InputLayer", "config": {"name": "other", "dtype": "float32", "input_shape": [None, 3], "size": 3,
                                                              "idx": 7, "prev_layer_idx": []}})
    k.b.refuse = 2
    return kdone(k)


def k_type(r):
    """Element types which are not implemented."""
    k = kvec(r)
    kdense(k)
    k.layers[0]["config"]["dtype"] = r.choice(["float16", "bfloat16", "int8", "uint8", "bool", "string", "complex64", "int64", "mixed_float16"])
    k.b.refuse = 2
    return kdone(k)


def k_padding(r):
    k = kimg(r)
    (kconv if r.random() < 0.5 else kpool)(k, pad="valid")
    k.layers[-1]["config"]["padding"] = r.choice(["causal", "full", "reflect", "", None, 0.5])
    k.b.refuse = 2
    return kdone(k)


def k_concat_batch(r):
    k = kvec(r)
    kdense(k)
    kdense(k, n=k.b.shape(k.val[1])[1])
    n = k.b.shape(k.val[1])[1]
    v = k.b.node("Concat", [k.val[1], k.val[2]], {"axis": 0}, None, {"axis": 0})
    k.add("Concatenate", v, [1, 2], {"axis": r.choice([0, -2])})
    k.b.refuse = 2 if n else 2
    return kdone(k)


def k_oned(r):
    """One-dimensional convolutions and poolings."""
    k = kvec(r)
    kdense(k, n=6)
    x = k.val[-1]
    v = k.b.node("Relu", [x], {}, None, {})
    cls = r.choice(["Conv1D", "MaxPooling1D", "AveragePooling1D", "ZeroPadding1D", "GlobalAveragePooling1D", "UpSampling1D", "Cropping1D"])
    k.add(cls, v, [1], {"pool_size": [1], "kernel_size": [1], "strides": [1], "padding": "valid", "filters": 1})
    k.b.refuse = 2
    return kdone(k)


def k_softmax_one(r):
    """The softmax of one neuron."""
    k = kvec(r, 1024)
    if r.random() < 0.5:
        kdense(k)
    kdense(k, "softmax", n=1)
    if r.random() < 0.5:
        kdense(k)
    return kdone(k)


JSON = {
    "json_softmax_one": k_softmax_one,
    "json_act": wide(len(ACTS), k_act), "json_softmax_conv": k_softmax_conv,
    "json_conv_strides": k_attr(lambda r, k: kconv(k, **dict(zip(("sh", "sw"), two(r))))),
    "json_conv_dilations": k_attr(lambda r, k: kconv(k, **dict(zip(("dh", "dw"), two(r, 1, 2))), pad="valid")),
    "json_pool_size": k_attr(lambda r, k: kpool(k, *two(r), pad=r.choice(["same", "valid"]))),
    "json_pool_strides": k_attr(lambda r, k: kpool(k, 2, 2, *two(r), pad=r.choice(["same", "valid"]))),
    "json_first": k_first, "json_layer_format": k_layer_format, "json_class": wide(len(CLASSES), k_class), "json_merge_class": wide(5, k_merge_class),
    "json_dense_multi": k_dense_multi, "json_bn": wide(3, k_bn), "json_bn_axis": wide(6, k_bn_axis), "json_nobias": k_nobias, "json_reshape": k_reshape, "json_to_image": k_to_image,
    "json_broadcast": k_broadcast, "json_three": k_three, "json_two_inputs": k_two_inputs, "json_type": k_type, "json_padding": k_padding,
    "json_concat_batch": k_concat_batch, "json_oned": k_oned,
}


# ------------------------------------------------------------------ PyTorch
def timg(r, sc=1, **kw):
    k = Torch(r, sc=sc, ish=kw.get("ish") or [1, r.randint(1, 3), r.randint(3, 5), r.randint(3, 5)])
    if r.random() < 0.5 and k.b.shape(0)[0] == 1:
        k.emit(k.b.node("Relu", [0], {}, None, {}), [0], lambda m, z: k.t.relu(z))
    return k


def tvec(r, sc=1, n=None):
    return timg(r, sc, ish=[1, n or r.randint(2, 6)])


def t_fun(op, spec, f, sc=1, attrs=None, sattrs=None, vec=None):
    """An operator over one tensor, of the same shape."""
    def g(r):
        k = (tvec if (r.random() < 0.5 if vec is None else vec) else timg)(r, sc)
        at = attrs(k) if callable(attrs) else dict(attrs or {})
        sa = sattrs(k) if callable(sattrs) else dict(sattrs or {})
        v = k.b.node(op, [k.val[-1]], at, spec, sa)
        k.emit(v, [last(k)], lambda m, z: f(k.t, z))
        return k.finish(last(k))
    return g


def t_refused(f, vec=None, n=None, width=1):
    """Outside the documented operators: refused whatever it means."""
    def g(r):
        k = (tvec(r, 1, n) if (r.random() < 0.5 if vec is None else vec) else timg(r, 1))
        x = last(k)
        y = f(k, r, k.t, k.t.nn.functional)
        v = k.b.node("Identity", [k.val[x]], {}, None, {})
        k.emit(v, [x], y if not isinstance(y, tuple) else y[0], y[1] if isinstance(y, tuple) else None)
        k.b.refuse = 2
        return finish_free(k)
    return wide(width, g)


def finish_free(k, last_=None):
    """Finish without comparing the module with the expectation."""
    s = k.b.samples
    k.b.samples = []
    try:
        return k.finish(last(k) if last_ is None else last_)
    finally:
        k.b.samples = s


def t_scalar_op(r):
    """An arithmetic operation with a number."""
    k = (tvec if r.random() < 0.5 else timg)(r, 1)
    c = r.choice([2, 3, -2])
    op, f = r.cycle([("Add", lambda z: z + c), ("Add", lambda z: c + z), ("Sub", lambda z: z - c), ("Mul", lambda z: z * c), ("Mul", lambda z: c * z),
                      ("Add", lambda z: k.t.add(z, c, alpha=1)), ("Add", lambda z: z.add_(c))])
    ci = k.b.init(np.full([1], c))
    k.emit(k.b.node(op, [k.val[-1], ci], {}, None, {}), [last(k)], lambda m, z: f(z))
    return k.finish(last(k))


def t_param_op(r):
    """An operation with a parameter or a buffer of the module."""
    k = tvec(r, 1)
    n = k.b.shape(k.val[-1])[1]
    w = ints(r, [1, n], -3, 3)
    ci = k.b.init(w)
    mod = k.t.nn.Linear(n, 1, bias=False, dtype=k.dt)
    mod.weight.data = k.w(w)
    if r.random() < 0.5:
        v = k.b.node("Add", [k.val[-1], ci], {}, None, {})
        k.emit(v, [last(k)], r.choice([lambda m, z: z + m.weight, lambda m, z: m.weight + z]), mod)
    else:
        v = k.b.node("Concat", [k.val[-1], ci], {"axis": 1}, None, {"axis": 1})
        k.emit(v, [last(k)], lambda m, z: k.t.cat([z, m.weight], 1), mod)
    if r.random() < 0.5:
        k.emit(k.b.node("Relu", [v], {}, None, {}), [last(k)], lambda m, z: k.t.relu(z))
    return k.finish(last(k))


def t_binary(r):
    """Operations over two computed tensors; Add with a factor; broadcast operands."""
    k = timg(r, 1)
    b, t = k.b, k.t
    x = k.val[-1]
    p = last(k)
    s = b.shape(x)
    if r.random() < 0.5:
        y = b.node("ReduceMax", [x], {"axes": [2, 3], "keepdims": 1}, None, {"axes": [2, 3], "keep": 1, "noop": 0})
        if s[2] != s[3]:
            raise Reject("square")
        y = b.node("MaxPool", [x], {"kernel_shape": [s[2]] * 2, "strides": [1, 1]}, None,
                   {"kh": s[2], "kw": s[2], "sh": 1, "sw": 1, "auto": "NOTSET", "pads": [0] * 4, "cip": 0})
        k.emit(y, [p], lambda m, z: t.nn.functional.max_pool2d(z, s[2], 1))
    else:
        y = b.node("Clip", [x, b.raw_init(np.array([-1], np.float32)), b.raw_init(np.array([2], np.float32))], {}, None,
                   {"haslo": 1, "hashi": 1, "lo": -1, "hi": 2}, spec_ins=[x])
        k.emit(y, [p], lambda m, z: t.clamp(z, -1, 2))
    q = last(k)
    ins, vs = ([p, q], [x, y]) if r.random() < 0.5 else ([q, p], [y, x])
    style = r.cycle(["plain", "alpha", "sub", "mul", "maximum", "rsub"])
    if style == "plain":
        k.emit(b.node("Add", vs, {}, None, {}), ins, lambda m, u, w: u + w)
    elif style == "alpha":
        d = b.node("Mul", [vs[1], b.init(np.array([3]))], {}, None, {})
        k.emit(b.node("Add", [vs[0], d], {}, None, {}), ins, lambda m, u, w: t.add(u, w, alpha=3))
    elif style == "maximum":
        k.emit(b.node("Max", vs, {}, None, {}), ins, lambda m, u, w: t.maximum(u, w))
    elif style == "rsub":
        k.emit(b.node("Sub", vs[::-1], {}, None, {}), ins, lambda m, u, w: t.rsub(u, w))
    else:
        k.emit(b.node(style.capitalize(), vs, {}, None, {}), ins, (lambda m, u, w: u - w) if style == "sub" else (lambda m, u, w: u * w))
    return k.finish(last(k))


def t_rank_broadcast(r):
    """Operands of different ranks."""
    k = tvec(r, 1, n=r.choice([4, 6]))
    b, t = k.b, k.t
    x, p = k.val[-1], last(k)
    y = b.node("Reshape", [x, b.raw_init(np.array([b.shape(x)[1]], I64))], {}, None, {"shape": [b.shape(x)[1]]}, spec_ins=[x])
    k.emit(y, [p], lambda m, z: t.flatten(z, 0))
    k.emit(b.node("Add", [x, y], {}, None, {}), [p, last(k)], lambda m, u, w: u + w)
    return k.finish(last(k))


def t_pool(r):
    """Poolings with attributes which are not the usual ones."""
    k = timg(r, 256)
    b, F = k.b, k.t.nn.functional
    x = k.val[-1]
    s = b.shape(x)
    style = r.choice(["avg", "avg", "ceil", "dilation", "kernel", "stride", "avgpad", "divisor", "pads"])
    kh, kw, sh, sw, dh, ceil, cip, ph, pw = 2, 2, r.choice([1, 2]), 0, 1, 0, 0, 0, 0
    sw = sh
    op = "MaxPool"
    if style == "kernel":
        kh, kw = two(r)
    elif style == "stride":
        sh, sw = two(r)
    elif style == "dilation":
        dh = 2
    elif style == "ceil":
        ceil, sh, sw = 1, 2, 2
    elif style in ("avg", "avgpad", "divisor"):
        op = "AveragePool"
        if style == "avgpad":
            ph = pw = 1
            cip = r.choice([0, 1])
    else:
        ph, pw = r.choice([(1, 0), (0, 1)])
    if (kh - 1) * dh + 1 > s[2] or (kw - 1) * dh + 1 > s[3] or 2 * ph > kh or 2 * pw > kw:
        raise Reject("kernel")
    if ceil and any((s[2 + q] + (k_ - 1) - 1) // 2 * 2 >= s[2 + q] and False for q, k_ in ((0, kh), (1, kw))):
        raise Reject("window")
    at = {"kernel_shape": [kh, kw], "strides": [sh, sw], "pads": [ph, pw, ph, pw]}
    if dh > 1:
        at["dilations"] = [dh, dh]
    if ceil:
        at["ceil_mode"] = 1
    if cip:
        at["count_include_pad"] = 1
    v = b.node(op, [x], at, None, {"kh": kh, "kw": kw, "sh": sh, "sw": sw, "auto": "NOTSET", "pads": at["pads"], "cip": cip, "dh": dh, "dw": dh,
                                   "ceil": ceil})
    if style == "divisor":
        v = b.node("Mul", [v, b.init(np.array([2 * 256]))], {}, None, {})
    if op == "MaxPool":
        f = lambda m, z: F.max_pool2d(z, (kh, kw), (sh, sw), (ph, pw), dh, bool(ceil))  # noqa: E731
    else:
        f = lambda m, z: F.avg_pool2d(z, (kh, kw), (sh, sw), (ph, pw), False, bool(cip), *([2] if style == "divisor" else []))  # noqa: E731
    k.emit(v, [last(k)], f)
    return k.finish(last(k))


def t_adaptive(r):
    """Adaptive poolings whose windows are not all the same, or not square."""
    k = timg(r, 1, ish=[1, r.randint(1, 2), r.choice([4, 5, 6]), r.choice([4, 5, 6])])
    F = k.t.nn.functional
    x = k.val[-1]
    o = (r.choice([2, 3, 4]), r.choice([2, 3, 4]))
    mx = r.random() < 0.3
    s = k.b.shape(x)
    if any(s[2 + q] % o[q] for q in (0, 1)) or mx:
        v = k.b.node("Identity", [x], {}, None, {})
        k.emit(v, [last(k)], (lambda m, z: F.adaptive_max_pool2d(z, o)) if mx else (lambda m, z: F.adaptive_avg_pool2d(z, o)))
        k.b.refuse = 2
        return finish_free(k)
    raise Reject("uniform")


def t_adaptive_rect(r):
    k = timg(r, 256, ish=[1, r.randint(1, 2), r.choice([2, 4, 6]), r.choice([2, 4, 6])])
    x = k.val[-1]
    s = k.b.shape(x)
    o = (r.choice([d for d in range(1, 7) if s[2] % d == 0]), r.choice([d for d in range(1, 7) if s[3] % d == 0]))
    kh, kw = s[2] // o[0], s[3] // o[1]
    v = k.b.node("AveragePool", [x], {"kernel_shape": [kh, kw], "strides": [kh, kw]}, None,
                 {"kh": kh, "kw": kw, "sh": kh, "sw": kw, "auto": "NOTSET", "pads": [0] * 4, "cip": 0})
    k.emit(v, [last(k)], lambda m, z: k.t.nn.functional.adaptive_avg_pool2d(z, o))
    return k.finish(last(k))


def t_conv(r):
    """Convolutions with attributes which are not the usual ones."""
    style = r.choice(["stride", "dilation", "mode", "scaled", "functional", "stringpad"])
    k = timg(r, 1)
    b, t, F = k.b, k.t, k.t.nn.functional
    x = k.val[-1]
    s = b.shape(x)
    oc = r.randint(1, 3)
    w = ints(r, [oc, s[1], 2, 2], -2, 2)
    st, dl = (two(r) if style == "stride" else (1, 1)), (two(r, 1, 2) if style == "dilation" else (1, 1))
    mod = t.nn.Conv2d(s[1], oc, 2, bias=False, stride=st, dilation=dl, dtype=k.dt, padding=1 if style == "mode" else 0,
                      padding_mode=r.choice(["reflect", "replicate", "circular"]) if style == "mode" else "zeros")
    mod.weight.data = k.w(w)
    at = {"kernel_shape": [2, 2], "strides": list(st), "dilations": list(dl)}
    wi = b.init(w * 2 if style == "scaled" else w)
    if style == "mode":
        v = b.node("Conv", [x, wi], {**at, "pads": [1] * 4}, None, {"sh": 1, "sw": 1, "dh": 1, "dw": 1, "group": 1, "auto": "NOTSET", "pads": [1] * 4})
        k.emit(v, [last(k)], lambda m, z: m(z), mod)
        b.refuse = 2
        return finish_free(k)
    v = b.node("Conv", [x, wi], at, None, {"sh": st[0], "sw": st[1], "dh": dl[0], "dw": dl[1], "group": 1, "auto": "NOTSET", "pads": [0] * 4})
    f = {"scaled": lambda m, z: F.conv2d(z, m.weight * 2), "functional": lambda m, z: F.conv2d(z, m.weight, stride=[1], padding=[0, 0]),
         "stringpad": lambda m, z: F.conv2d(z, m.weight, padding="valid")}.get(style, lambda m, z: m(z))
    k.emit(v, [last(k)], f, mod)
    return k.finish(last(k))


def t_linear(r):
    """Linear layers over the last dimension of a tensor of higher rank, or with computed parameters."""
    style = r.choice(["image", "scaled", "ones", "bilinear"])
    t = None
    if style == "image":
        k = timg(r, 1, ish=[1, r.randint(1, 3), 1, r.randint(2, 4)] if r.random() < 0.3 else None)
        t = k.t
        x = k.val[-1]
        s = k.b.shape(x)
        m = r.randint(1, 3)
        w = ints(r, [s[3], m], -2, 2)
        mod = t.nn.Linear(s[3], m, bias=False, dtype=k.dt)
        mod.weight.data = k.w(w.T)
        y = k.b.node("Transpose", [x], {"perm": [0, 3, 1, 2]}, None, {"perm": [0, 3, 1, 2]})
        y = k.b.node("Conv", [y, k.b.init(w.T.reshape(m, s[3], 1, 1))], {"kernel_shape": [1, 1]}, None,
                     {"sh": 1, "sw": 1, "dh": 1, "dw": 1, "group": 1, "auto": "NOTSET", "pads": [0] * 4})
        v = k.b.node("Transpose", [y], {"perm": [0, 2, 3, 1]}, None, {"perm": [0, 2, 3, 1]})
        k.emit(v, [last(k)], lambda m_, z: m_(z), mod)
        return k.finish(last(k))
    k = tvec(r, 1)
    t, F = k.t, k.t.nn.functional
    x = k.val[-1]
    n, m = k.b.shape(x)[1], r.randint(1, 4)
    w = ints(r, [m, n], -2, 2)
    mod = t.nn.Linear(n, m, bias=False, dtype=k.dt)
    mod.weight.data = k.w(w)
    f = {"scaled": lambda m_, z: F.linear(z, m_.weight * 2), "ones": lambda m_, z: z @ m_.weight.T,
         "bilinear": lambda m_, z: t.addmm(z[:, :1] * 0, z, m_.weight.T)}[style]
    wi = k.b.init(w * (2 if style == "scaled" else 1))
    v = k.b.node("Gemm", [x, wi], {"transB": 1}, None, {"tA": 0, "tB": 1, "an": 1, "ad": 1, "bn": 1, "bd": 1})
    k.emit(v, [last(k)], f, mod)
    return k.finish(last(k))


def t_flatten(r):
    """Flatten of other ranges of dimensions, followed by layers which see the shape."""
    k = timg(r, 256)
    b, t = k.b, k.t
    x = k.val[-1]
    s = b.shape(x)
    a, e = r.choice([(0, -1), (2, -1), (1, 2), (0, 1), (2, 3), (-2, -1), (3, 3)])
    n = a % 4, e % 4
    sh = s[:n[0]] + [int(np.prod(s[n[0]:n[1] + 1]))] + s[n[1] + 1:]
    v = b.node("Reshape", [x, b.raw_init(np.array(sh, I64))], {}, None, {"shape": sh}, spec_ins=[x])
    k.emit(v, [last(k)], lambda m, z: t.flatten(z, a, e))
    nxt = r.choice(["relu", "cat", "linear", "add", "none"])
    p = last(k)
    if nxt == "relu":
        k.emit(b.node("Relu", [v], {}, None, {}), [p], lambda m, z: t.relu(z))
    elif nxt == "cat":
        ax = r.randrange(len(sh))
        k.emit(b.node("Concat", [v, v], {"axis": ax}, None, {"axis": ax}), [p, p], lambda m, y, z: t.cat([y, z], ax))
    elif nxt == "add":
        k.emit(b.node("Add", [v, v], {}, None, {}), [p, p], lambda m, y, z: y + z)
    elif nxt == "linear" and len(sh) <= 2:
        w = ints(r, [2, sh[-1]], -1, 1, 256)
        mod = t.nn.Linear(sh[-1], 2, bias=False, dtype=k.dt)
        mod.weight.data = k.w(w)
        y = v
        if len(sh) == 1:
            y = b.node("Reshape", [v, b.raw_init(np.array([1, sh[0]], I64))], {}, None, {"shape": [1, sh[0]]}, spec_ins=[v])
        y = b.node("Gemm", [y, b.init(w)], {"transB": 1}, None, {"tA": 0, "tB": 1, "an": 1, "ad": 1, "bn": 1, "bd": 1})
        if len(sh) == 1:
            y = b.node("Reshape", [y, b.raw_init(np.array([2], I64))], {}, None, {"shape": [2]}, spec_ins=[y])
        k.emit(y, [p], lambda m, z: m(z), mod)
    return k.finish(last(k))


def t_batched(r):
    """Several samples in one tensor."""
    img = r.random() < 0.7
    k = timg(r, 256, ish=[2, 2, 4, 4] if img else [2, 3])
    b, t, F = k.b, k.t, k.t.nn.functional
    style = r.choice(["pool", "gap", "bn", "conv", "add", "relu", "cat"] if img else ["linear", "relu", "cat", "bn"])
    if style == "pool":
        v = b.node("MaxPool", [0], {"kernel_shape": [2, 2], "strides": [2, 2]}, None,
                   {"kh": 2, "kw": 2, "sh": 2, "sw": 2, "auto": "NOTSET", "pads": [0] * 4, "cip": 0})
        k.emit(v, [0], lambda m, z: F.max_pool2d(z, 2))
    elif style == "gap":
        v = b.node("AveragePool", [0], {"kernel_shape": [2, 2], "strides": [2, 2]}, None,
                   {"kh": 2, "kw": 2, "sh": 2, "sw": 2, "auto": "NOTSET", "pads": [0] * 4, "cip": 0})
        k.emit(v, [0], lambda m, z: F.adaptive_avg_pool2d(z, 2))
    elif style == "bn":
        c = b.shape(0)[1]
        mod = (t.nn.BatchNorm2d if img else t.nn.BatchNorm1d)(c, eps=1 / 256, dtype=k.dt)
        q = [np.array([256, 512, 256][:c]), np.array([0, 256, -256][:c]), np.array([256, 0, 512][:c]), np.array([256, 64, 1024][:c])]
        mod.weight.data, mod.bias.data, mod.running_mean, mod.running_var = (k.w(z) for z in q)
        v = b.node("BatchNormalization", [0, *[b.init(z) for z in q]], {"epsilon": 1 / 256}, None, {"eps": 1})
        k.emit(v, [0], lambda m, z: m(z), mod)
    elif style == "conv":
        w = ints(r, [2, 2, 2, 2], -2, 2, 256)
        mod = t.nn.Conv2d(2, 2, 2, bias=False, dtype=k.dt)
        mod.weight.data = k.w(w)
        v = b.node("Conv", [0, b.init(w)], {"kernel_shape": [2, 2]}, None,
                   {"sh": 1, "sw": 1, "dh": 1, "dw": 1, "group": 1, "auto": "NOTSET", "pads": [0] * 4})
        k.emit(v, [0], lambda m, z: m(z), mod)
    elif style == "linear":
        w = ints(r, [2, 3], -2, 2, 256)
        mod = t.nn.Linear(3, 2, bias=False, dtype=k.dt)
        mod.weight.data = k.w(w)
        v = b.node("Gemm", [0, b.init(w)], {"transB": 1}, None, {"tA": 0, "tB": 1, "an": 1, "ad": 1, "bn": 1, "bd": 1})
        k.emit(v, [0], lambda m, z: m(z), mod)
    elif style == "add":
        k.emit(b.node("Add", [0, 0], {}, None, {}), [0, 0], lambda m, y, z: y + z)
    elif style == "cat":
        ax = r.choice([0, 1])
        k.emit(b.node("Concat", [0, 0], {"axis": ax}, None, {"axis": ax}), [0, 0], lambda m, y, z: t.cat([y, z], ax))
    else:
        k.emit(b.node("Relu", [0], {}, None, {}), [0], lambda m, z: t.relu(z))
    return k.finish(last(k))


def t_norm(r):
    """Normalisations which are not those of the running statistics."""
    k = timg(r, 1)
    t = k.t
    c = k.b.shape(k.val[-1])[1]
    mod = r.choice([lambda: t.nn.BatchNorm2d(c, track_running_stats=False, dtype=k.dt), lambda: t.nn.InstanceNorm2d(c, dtype=k.dt),
                    lambda: t.nn.GroupNorm(1, c, dtype=k.dt), lambda: t.nn.LayerNorm(k.b.shape(k.val[-1])[1:], dtype=k.dt),
                    lambda: t.nn.LocalResponseNorm(2)])()
    k.emit(k.b.node("Identity", [k.val[-1]], {}, None, {}), [last(k)], lambda m, z: m(z), mod)
    k.b.refuse = 2
    return finish_free(k)


def t_outputs(r):
    """Several outputs, or an output which is not the last value computed."""
    k = tvec(r, 1)
    t, b = k.t, k.b
    p = last(k)
    k.emit(b.node("Relu", [k.val[p]], {}, None, {}), [p], lambda m, z: t.relu(z))
    k.emit(b.node("Concat", [k.val[p], k.val[p + 1]], {"axis": 1}, None, {"axis": 1}), [p, p + 1], lambda m, y, z: t.cat([y, z], 1))
    style = r.choice(["two", "three", "input", "inplace", "list"])
    if style == "inplace":      # a value modified by an operation which the output does not need
        k.emit(b.node("Clip", [k.val[p + 2], b.raw_init(np.array([0], np.float32)), b.raw_init(np.array([2], np.float32))], {}, None,
                      {"haslo": 1, "hashi": 1, "lo": 0, "hi": 2}, spec_ins=[k.val[p + 2]]), [p + 2], lambda m, z: z.clamp_(0, 2))
        return k.finish(p + 1)
    if style == "input":
        b.refuse = 2
        return k.finish(p + 1, [p + 1, 0])
    ends = {"two": [p + 1, p + 2], "three": [p + 1, p + 2, p + 1], "list": [p + 2, p + 1]}[style]
    b.refuse = 2
    return k.finish(p + 2, ends)


def t_dead(r):
    """Values which the output does not need."""
    k = tvec(r, 1)
    t, b = k.t, k.b
    p = last(k)
    k.emit(b.node("Relu", [k.val[p]], {}, None, {}), [p], lambda m, z: t.relu(z))
    k.emit(b.node("Concat", [k.val[p], k.val[p + 1]], {"axis": 1}, None, {"axis": 1}), [p, p + 1], lambda m, y, z: t.cat([y, z], 1))
    q = last(k)
    w = r.choice(["cat", "clamp"])
    if w == "cat":
        k.emit(b.node("Concat", [k.val[q], k.val[p]], {"axis": 1}, None, {"axis": 1}), [q, p], lambda m, y, z: t.cat([y, z], 1))
    else:
        k.emit(b.node("Relu", [k.val[q]], {}, None, {}), [q], lambda m, z: z.relu())
        k.emit(b.node("Relu", [k.val[p]], {}, None, {}), [p], lambda m, z: z.clone().relu_())
    return k.finish(q)


def t_type(r):
    """Conversions and element types which are not implemented."""
    k = tvec(r, 1)
    t = k.t
    f = r.choice([lambda m, z: z.to(t.int32).to(z.dtype), lambda m, z: z.half().to(z.dtype), lambda m, z: z.round(), lambda m, z: (z > 0).to(z.dtype)])
    k.emit(k.b.node("Identity", [k.val[-1]], {}, None, {}), [last(k)], f)
    k.b.refuse = 2
    return finish_free(k)


def t_clamp(r):
    """Bounds which are tensors, or in the other order."""
    k = tvec(r, 1)
    t, b = k.t, k.b
    x, p = k.val[-1], last(k)
    if r.random() < 0.5:
        lo, hi = 2, -1     # min > max: the result is max
        v = b.node("Clip", [x, b.raw_init(np.array([lo], np.float32)), b.raw_init(np.array([hi], np.float32))], {}, None,
                   {"haslo": 1, "hashi": 1, "lo": lo, "hi": hi}, spec_ins=[x])
        k.emit(v, [p], lambda m, z: t.clamp(z, lo, hi))
        return k.finish(last(k))
    y = b.node("Relu", [x], {}, None, {})
    k.emit(y, [p], lambda m, z: t.relu(z))
    v = b.node("Max", [x, y], {}, None, {})
    k.emit(v, [p, last(k)], lambda m, z, u: t.clamp(z, min=u))
    return k.finish(last(k))


def t_alias(r):
    """In-place operations over tensors which have several names."""
    k = Torch(r, sc=256, ish=[1, r.randint(1, 3), r.randint(2, 3), r.randint(2, 3)])
    k.menu = {4: ["flat", "act", "act", "add", "add", "drop", "conv"], 2: ["act", "act", "add", "add", "drop", "lin"]}
    k.often = 0.6
    if r.random() < 0.35:
        t, b = k.t, k.b
        k.emit(b.node("Add", [0, 0], {}, None, {}), [0], lambda m, z: z + z)
        n = int(np.prod(b.shape(0)))
        flat = b.node("Flatten", [k.val[1]], {}, None, {"shape": [1, n]})
        k.emit(flat, [1], (lambda m, z: t.flatten(z, 1)) if r.random() < 0.8 else (lambda m, z: z.view(1, -1)), alias=1)
        q = r.choice([1, 2])
        if q == 1:      # the sum in place over one name, then a function of its result
            k.emit(b.node("Add", [k.val[1], 0], {}, None, {}), [1, 0], lambda m, y, z: y.add_(z), inplace=True)
        else:
            k.emit(b.node("Add", [k.val[2], k.val[2]], {}, None, {}), [2, 2], lambda m, y, z: y.add_(z), inplace=True)
        k.emit(b.node("Relu", [k.val[3]], {}, None, {}), [3], lambda m, z: t.relu(z))
        k.used -= {3 - q}       # read through the other name: the same name is the result itself
        return k.build(4, r.choice([4, 5, 7]))
    return k.build(5, 9)


SHAPES = [lambda z: z.view(1, -1), lambda z: z.reshape(1, -1), lambda z: z.transpose(-1, -2), lambda z: z.unsqueeze(1), lambda z: z.permute([z.dim() - 1 - q for q in range(z.dim())]),
          lambda z: z[:, :1], lambda z: z[:, 1:], lambda z: z.flip(1), lambda z: z.chunk(2, 1)[0], lambda z: z.mean(-1), lambda z: z.sum(1, keepdim=True),
          lambda z: z.amax(-1), lambda z: z.expand(3, *z.shape[1:]), lambda z: z.repeat(1, 2) if z.dim() == 2 else z.repeat(1, 2, 1, 1),
          lambda z: z.roll(1, 1), lambda z: z.cumsum(1), lambda z: z.sort(1)[0], lambda z: z.argmax(1).to(z.dtype), lambda z: z.select(1, 0),
          lambda z: z.narrow(1, 0, 1), lambda z: z.abs(), lambda z: -z, lambda z: z.sqrt(), lambda z: z ** 2, lambda z: z.exp(), lambda z: z * z]


TORCH = {
    "torch_elu": t_fun("Elu", None, lambda t, z: t.nn.functional.elu(z), 1024, {"alpha": 1.0}, {"an": 1, "ad": 1}),
    "torch_softsign": t_fun("Softsign", None, lambda t, z: t.nn.functional.softsign(z), 256),
    "torch_sigmoid": t_fun("Sigmoid", None, lambda t, z: t.sigmoid(z), 1024), "torch_tanh": t_fun("Tanh", None, lambda t, z: t.tanh(z), 1024),
    "torch_softmax": t_fun("Softmax", None, lambda t, z: t.softmax(z, 1), 1024, {"axis": 1}, {"axis": 1}, vec=True),
    "torch_other_act": t_refused(lambda k, r, t, F: r.cycle([
        lambda m, z: F.gelu(z), lambda m, z: F.silu(z), lambda m, z: F.hardswish(z), lambda m, z: F.hardsigmoid(z), lambda m, z: F.mish(z),
        lambda m, z: F.softplus(z), lambda m, z: F.celu(z), lambda m, z: F.selu(z), lambda m, z: F.threshold(z, 1.0, 2.0), lambda m, z: F.glu(t.cat([z, z], 1), 1),
        lambda m, z: F.logsigmoid(z), lambda m, z: F.hardshrink(z), lambda m, z: F.tanhshrink(z), lambda m, z: F.log_softmax(z, 1), lambda m, z: F.normalize(z, dim=1)]), width=15),
    "torch_prelu": t_refused(lambda k, r, t, F: ((lambda m, z: m(z)), t.nn.PReLU(dtype=k.dt))),
    "torch_shape": t_refused(lambda k, r, t, F: (lambda f: (lambda m, z: f(z)))(r.cycle(SHAPES)), width=len(SHAPES)),
    "torch_image": t_refused(lambda k, r, t, F: r.cycle([
        lambda m, z: F.pad(z, (1, 1)), lambda m, z: F.interpolate(z, scale_factor=2), lambda m, z: F.pixel_unshuffle(F.interpolate(z, size=(2, 2)), 2),
        lambda m, z: F.lp_pool2d(z, 2.0, 2), lambda m, z: F.unfold(z, 2), lambda m, z: F.max_pool2d(z, 2, return_indices=True)[0],
        lambda m, z: F.max_pool1d(t.flatten(z, 1, 2), 2), lambda m, z: F.avg_pool1d(t.flatten(z, 1, 2), 2)]), vec=False, width=8),
    "torch_conv_other": t_refused(lambda k, r, t, F: (lambda c: r.cycle([
        ((lambda m, z: m(z)), t.nn.ConvTranspose2d(c, 2, 2, dtype=k.dt)), ((lambda m, z: m(t.flatten(z, 2))), t.nn.Conv1d(c, 2, 2, dtype=k.dt)),
        ((lambda m, z: m(z[:, :, None])), t.nn.Conv3d(c, 2, 1, dtype=k.dt)), ((lambda m, z: m(z)), t.nn.LazyConv2d(1, 2) if False else t.nn.ConvTranspose2d(c, 1, 1, dtype=k.dt)),
    ]))(k.b.shape(k.val[-1])[1]), vec=False, width=4),
    "torch_scalar_op": wide(7, t_scalar_op), "torch_param_op": t_param_op, "torch_binary": wide(6, t_binary), "torch_ranks": t_rank_broadcast,
    "torch_pool": t_pool, "torch_adaptive": t_adaptive, "torch_adaptive_rect": t_adaptive_rect, "torch_conv": t_conv, "torch_linear": t_linear,
    "torch_flatten": t_flatten, "torch_batched": t_batched, "torch_norm": t_norm, "torch_outputs": t_outputs, "torch_dead": t_dead,
    "torch_alias": wide(40, t_alias), "torch_type": t_type, "torch_clamp": t_clamp,
}
