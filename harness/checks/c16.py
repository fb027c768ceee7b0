"""C16: what does not belong to the function of a model does not influence what is generated."""
from __future__ import annotations

import random

import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

from acv_cases import any_case, graph_case, op_case
from acv_core import Check, MachineryError, pool_map, seed, tier
from acv_nets import OPS
from acv_run import full_run
from checks.c05 import relisted
from checks.net import judge

ODD = ["a*/b", "tail\\", "tail \\", 'quo"te', "it's", "ünï", "a/b/c", "%s %d", "{{idx}}", "<&>", "//", "/*", "1st", "two words", "a\tb",
       "x?y:z", "output_0", "ctx", "int", "tensor_temp", "??/", "#define x", "nb_tests", "a;b", "main", "inference", "+", "None", "#"]


def base(i, r):
    """A random model which the tool implements, and its case."""
    k = r.random()
    if k < 0.4:
        ops = [o for o in OPS if o not in ("Exp", "Log", "Sigmoid", "Tanh", "Silu")]
        op = r.choice(ops)
        return op_case(op, 10_000 + i, seed())
    if k < 0.8:
        return graph_case(20_000 + i, seed(), nmin=2, nmax=6, tag="forms")
    return any_case(30_000 + i, seed(), "forms")


def rename(m, f):
    """Rename every tensor of the model."""
    for n in m.graph.node:
        for lst in (n.input, n.output):
            for k, x in enumerate(lst):
                if x:
                    lst[k] = f(x)
    for lst in (m.graph.initializer, m.graph.input, m.graph.output, m.graph.value_info):
        for x in lst:
            x.name = f(x.name)


def f_names(r, m, b, o):
    """Other names of the nodes: none, all the same, odd ones."""
    style = r.choice(["none", "same", "odd", "odd", "tensors", "tensors", "similar", "similar", "similar", "input", "graph"])
    if style == "none":
        for n in m.graph.node:
            n.ClearField("name")
    elif style == "same":
        for n in m.graph.node:
            n.name = "node"
    elif style == "odd":
        for n in m.graph.node:
            n.name = r.choice(ODD) + r.choice(["", str(r.randint(0, 9))])
    elif style == "tensors":
        used: dict = {}

        def f(x):
            if x not in used:
                c = r.choice(ODD)
                while c in used.values():
                    c += r.choice("_*/ ")
                used[x] = c
            return used[x]
        rename(m, f)
    elif style == "similar":       # names which a sloppy comparison takes for one another
        stem = r.choice(["w", "Conv", "a/b", "é", "x_1", "0"])
        kin = dict.fromkeys([stem, stem.lower(), stem.upper(), stem.title(), stem + stem, stem + "0", stem + "00", "_" + stem, stem + "_", stem + ":0", " " + stem,
                             stem + " ", stem + ".", stem + "/" + stem, stem + "1", stem + "10", stem + "e\u0301", stem + "\u00e9", stem[:-1] or "z"])
        pool = list(kin)
        if r.random() < 0.4:
            pool = pool[:4]
        r.shuffle(pool)
        used = {}

        def g(x):
            if x not in used:
                c = pool.pop() if pool else stem + "_" + str(len(used))
                used[x] = c if c not in used.values() else c + "~" + str(len(used))
            return used[x]
        names = [i.name for i in m.graph.initializer]
        for x in r.sample(names, len(names)):
            g(x)
        rename(m, g)
    elif style == "input":
        c = r.choice(ODD)
        rename(m, lambda x: c if x == b.name_of[0] else x)
    else:
        m.graph.name = r.choice(ODD)
        m.graph.doc_string = "*/ text"
        m.producer_name = "x */"
        for n in m.graph.node:
            n.doc_string = "*/ text \\"
    return "names " + style


def f_symbolic(r, m, b, o):
    """The batch dimension is free."""
    if b.ishape[0] != 1:
        return None
    d = m.graph.input[0].type.tensor_type.shape.dim[0]
    style = r.choice(["param", "empty", "unknown output"])
    d.Clear()
    if style != "empty":
        d.dim_param = "batch"
    out = m.graph.output[0].type.tensor_type.shape
    if style == "unknown output":
        m.graph.output[0].type.tensor_type.ClearField("shape")
    elif len(out.dim) and out.dim[0].dim_value == 1:
        out.dim[0].Clear()
        out.dim[0].dim_param = "batch"
    return "free batch " + style


def f_outputs(r, m, b, o):
    """Intermediate tensors listed as outputs too: only the outmost layer counts."""
    names = [p.output[0] for p in b.protos if p.output[0] != b.name_of[o]]
    if not names or b.protos[-1].output[0] != b.name_of[o]:
        return None
    extra = [onnx.ValueInfoProto() for _ in range(0)]
    for n in r.sample(names, r.randint(1, min(3, len(names)))):
        v = b.name_of.index(n)
        extra.append(helper.make_tensor_value_info(n, helper.np_dtype_to_tensor_dtype(np.dtype(b.dtype)), b.shape(v)))
    outs = [*m.graph.output, *extra]
    r.shuffle(outs)
    del m.graph.output[:]
    m.graph.output.extend(outs)
    return "more outputs"


def f_inputs(r, m, b, o):
    """Inputs which no needed node reads."""
    et = m.graph.input[0].type.tensor_type.elem_type
    more = [helper.make_tensor_value_info(f"unread_{k}", et, [1, r.randint(1, 3), 2]) for k in range(r.randint(1, 2))]
    ins = [*m.graph.input, *more]
    r.shuffle(ins)
    del m.graph.input[:]
    m.graph.input.extend(ins)
    if r.random() < 0.5:   # read by a node without effect on the output
        m.graph.node.append(helper.make_node("Relu", ["unread_0"], ["dead"], name="dead"))
    return "more inputs"


def f_constants(r, m, b, o):
    """Initializers given as Constant nodes, or listed among the inputs."""
    ini = list(m.graph.initializer)
    if not ini:
        return None
    keep, nodes = [], []
    style = r.choice(["nodes", "inputs", "both", "raw"])
    for t in ini:
        if style == "raw":       # values in the typed fields instead of raw bytes
            a = numpy_helper.to_array(t)
            q = onnx.TensorProto()
            q.name, q.data_type = t.name, t.data_type
            q.dims.extend(a.shape)
            if t.data_type == TensorProto.FLOAT:
                q.float_data.extend(float(v) for v in a.flatten())
            elif t.data_type == TensorProto.INT64:
                q.int64_data.extend(int(v) for v in a.flatten())
            else:
                q = t
            keep.append(q)
            continue
        if style in ("nodes", "both") and r.random() < 0.6:
            q = onnx.TensorProto()
            q.CopyFrom(t)
            q.name = r.choice([t.name, t.name, "", "value", m.graph.node[0].output[0]])
            nodes.append(helper.make_node("Constant", [], [t.name], value=q, name=f"cst_{len(nodes)}"))
        else:
            keep.append(t)
            if style in ("inputs", "both") and r.random() < 0.6:
                m.graph.input.append(helper.make_tensor_value_info(t.name, t.data_type, list(t.dims)))
    del m.graph.initializer[:]
    m.graph.initializer.extend(keep)
    ns = [*nodes, *m.graph.node]
    del m.graph.node[:]
    m.graph.node.extend(ns)
    return "constants " + style


def f_value_info(r, m, b, o):
    """Shapes already inferred, or given for the tensors of the network."""
    q = onnx.shape_inference.infer_shapes(m)
    m.CopyFrom(q)
    if r.random() < 0.4:
        vi = list(m.graph.value_info)
        r.shuffle(vi)
        del m.graph.value_info[:]
        m.graph.value_info.extend(vi)
    return "value_info"


def f_file(r, m, b, o):
    return "file"


def f_listing(r, m, b, o):
    m.CopyFrom(relisted(m, r))
    return "listing"


FORMS = [f_names, f_names, f_symbolic, f_symbolic, f_outputs, f_inputs, f_constants, f_value_info, f_file, f_listing]


def one(arg):
    i = arg
    r = random.Random(f"forms-{i}-{seed()}")
    x = base(i, r)
    if x is None:
        return None
    b, o = x
    if b.is_init[o] or not b.protos:
        return None
    case = b.case(f"form-{i}", o)
    case["samples"] = case["samples"][:1]
    first = FORMS[i % len(FORMS)]
    m = b.model(o)
    done = [first(r, m, b, o)]
    if done[0] is None:
        return None
    for f in (f_names, f_symbolic, f_outputs, f_inputs, f_constants, f_value_info):
        if f is not first and r.random() < 0.25 and f_names not in (first, f):
            done.append(f(r, m, b, o))
    case["form"] = [d for d in done if d]
    opt = r.random() < 0.3
    kw = {"dtype": b.dtype, "optimization": opt}
    plain = full_run(b.model(o), case, channels=("c",), **kw)
    if plain[0]["status"] == "import":    # not implemented in its plain form either
        return None
    if "file" in done:
        import shutil
        import tempfile
        from pathlib import Path
        d = tempfile.mkdtemp(prefix="acv-form-", dir="/tmp")
        try:
            p = Path(d) / r.choice(["model.onnx", "my model.onnx", "model.v2.onnx"])
            onnx.save(m, str(p))
            ch = full_run(r.choice([p, str(p)]), case, channels=("python", "c"), **kw)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    else:
        before = m.SerializeToString(deterministic=True)
        ch = full_run(m, case, channels=("python", "c"), **kw)
        if m.SerializeToString(deterministic=True) != before:
            ch.append({**ch[-1], "name": "caller's model", "status": "changed", "out": []})
    for c in plain:
        c["name"] = "plain " + c["name"]
    case["channels"] = plain + ch
    return case


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("random operators and networks, each given in a form which leaves its function unchanged: other names of nodes and "
                "tensors, free batch dimension, more outputs, unread inputs, constants as nodes, as inputs or in typed fields, shape "
                "annotations, a file, another listing; non-trivial: outputs not constant")
    n = 560 if quick else 4000
    cases = []
    for a, (st, v) in zip(range(n), pool_map(one, list(range(n)), 120)):
        if st == "error":
            raise MachineryError(f"{a}: {v}")
        if st != "ok":
            chk.violation(f"form {a}: {st} {v}", {"case": repr(a)})
        elif v is not None:
            cases.append(v)
    forms: dict = {}
    for c in cases:
        for f in c.pop("form"):
            forms.setdefault(f, []).append(c["id"])
    names = {c: f for f, ids in forms.items() for c in ids}
    for c in cases:
        c["desc"] = names[c["id"]]
        for ch in c["channels"]:
            ch["msg"] = names[c["id"]] + " " + ch.get("msg", "")[-140:]
    chk.cov["forms"] = {f: len(ids) for f, ids in sorted(forms.items())}
    judge(chk, cases)
