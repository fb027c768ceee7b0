"""C14: in debug mode every intermediate value is shown, under the name of its layer, as the model defines it."""
from __future__ import annotations

import contextlib
import io
import random
import re
import shutil
import tempfile
import traceback
from pathlib import Path

import numpy as np

from acv_cases import LAYOUT_INT, LAYOUT_RAT, any_options, graph_case, op_case
from acv_core import Check, seed, tier
from acv_nets import OPS, Net, Reject
from acv_run import compile_run, dataset_of, enc, read_lines
from checks.c07 import conv_variants
from checks.c12 import Keras
from checks.net import run_cases

NODE = re.compile(r"\bn(\d+)_[A-Za-z]")
KERAS = re.compile(r"\b[a-z]+(?:2d)?_(\d+)\b")


def shown(layer, mode: str, number: dict) -> int:
    """The value a layer computes: that of the last of the nodes it stands for."""
    if mode == "keras" and layer.name == "Softmax":
        layer = layer.previous_layer[0]
    ks = [int(k) for k in (NODE if mode == "onnx" else KERAS).findall(layer.original_name)]
    return number[max(ks)] if ks else 0


def debug_run(model, case: dict, number: dict, mode: str, dtype=np.float32, proto=None, **kw) -> list[dict]:
    """number: of each node (or Keras layer), the value it computes.  proto: the ONNX model, for the reference tools."""
    import acetone_nnet as A
    from acetone_nnet import debug
    d = Path(tempfile.mkdtemp(prefix="acv-dbg-", dir="/tmp"))
    sc = case["sc"]
    res = []

    def channel(name, status, msg="", out=(), at=0):
        res.append({"name": name, "status": status, "msg": msg, "lay": "hwc" if at and mode == "keras" else "as_is",
                    "out": [list(out)], "at": at})

    def values(who, vs, ns):
        for v, n in zip(vs, ns):
            layer = layers[int(n.split()[-1])]
            at = shown(layer, mode, number)
            if at:
                channel(f"{who} {n}", "ok", out=[enc(x, sc) for x in np.ravel(v)], at=at)
            else:
                channel(f"{who} {n}", "unnamed", layer.original_name)

    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
            what = "import"
            try:
                g = A.CodeGenerator(file=model, function_name="net_exe", nb_tests=1, test_dataset=dataset_of(case, dtype),
                                    debug_mode=mode, **kw)
                layers = {l.idx: l for l in g.layers}
                what = "python"
                vals, names = debug.reorder_outputs(*g.compute_inference(str(d)))
                what = "generate"
                g.generate_c_files(str(d / "c"))
                what = "compile"
                st, msg = compile_run(d / "c")
            except Exception as e:  # noqa: BLE001
                # (the blocked convolution refuses what it doesn't support when it is written)
                channel("debug", "import" if what == "generate" and isinstance(e, AssertionError) else what, f"{type(e).__name__}: {e}")
                return res
            if st != "ok":
                channel("debug", st, msg)
                return res
            text = (d / "c" / "debug_file.txt").read_text()
            cvals, cnames = debug.extract_outputs_c(d / "c" / "debug_file.txt", g.data_type, len(g.debug_target))
        channel("c", "ok", out=read_lines(d / "c" / "output_c.txt", sc, 1)[0])
        channel("python", "ok", out=read_lines(d / "output_python.txt", sc, 1)[0])
        # which layers are shown: all those that compute something (Keras has the softmax in its layer)
        soft = [l.previous_layer[0].idx for l in g.layers if mode == "keras" and l.name == "Softmax"]
        expected = sorted(l.idx for l in g.layers[1:] if l.name not in ("Constant", "InputLayer") and l.idx not in soft)
        for who, ns in (("c", cnames), ("python", names)):
            if ns != [f"{layers[k].name} {k}" for k in expected]:
                channel(f"debug-{who}", "listing", f"{ns} instead of {[(k, layers[k].name) for k in expected]}")
        if len(text.splitlines()) != 2 * len(cnames):
            channel("debug-c", "lines", f"{len(text.splitlines())} lines, {len(cnames)} targets")
        values("debug-c", cvals, cnames)
        values("debug-python", vals, names)
        # a choice of layers by their indices
        pick = random.Random(case["id"]).sample(expected, min(len(expected), 3))
        pv, pn = debug.extract_outputs_python((vals, names), pick)
        want = [k for k in range(len(names)) if expected[k] in pick]
        if pn != [names[k] for k in want] or any(np.asarray(a).tobytes() != np.asarray(vals[k]).tobytes() for a, k in zip(pv, want)):
            channel("debug-choice", "choice", f"layers {pick}: {pn}")
        if proto is not None and names:
            with contextlib.redirect_stdout(io.StringIO()):
                reference(proto, case, names, vals, cvals, channel)
    except Exception as e:  # noqa: BLE001
        channel("tools", "raises", f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


COUNTER = """static unsigned long long acv_events;
static void select_evt_counter(int c) {}
static void event_track(int c) {}
static void enable_evt_counter(int c) {}
static void reset_evt_counter(int c) {}
static unsigned long long read_evt_counter(void) { acv_events += 3; return acv_events * acv_events; }
"""


def time_run(model, case: dict, dtype=np.float32, **kw) -> list[dict]:
    """The program that times its layers, on a stand-in of the event counter of the target."""
    import acetone_nnet as A
    d = Path(tempfile.mkdtemp(prefix="acv-time-", dir="/tmp"))
    sc, res = case["sc"], []

    def channel(name, status, msg="", out=()):
        res.append({"name": name, "status": status, "msg": msg, "lay": "as_is", "out": [list(out)], "at": 0})
    try:
        what = "import"
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
                g = A.CodeGenerator(file=model, function_name="net_exe", nb_tests=1, test_dataset=dataset_of(case, dtype),
                                    debug_mode="time", **kw)
                what = "python"
                g.compute_inference(str(d))
                what = "generate"
                g.generate_c_files(str(d / "c"))
            (d / "c" / "MMU.h").write_text("")
            (d / "c" / "PMH.h").write_text(COUNTER)
            what = "compile"
            st, msg = compile_run(d / "c")
        except Exception as e:  # noqa: BLE001
            channel("time", "import" if what == "generate" and isinstance(e, AssertionError) else what, f"{type(e).__name__}: {e}")
            return res
        if st != "ok":
            channel("time", st, msg)
            return res
        channel("c", "ok", out=read_lines(d / "c" / "output_c.txt", sc, 1)[0])
        channel("python", "ok", out=read_lines(d / "output_python.txt", sc, 1)[0])
        said = re.findall(r"^time (.*): (\d+)$", msg, re.M)
        want = [f"{l.name} {l.idx}" for l in g.layers] + ["output", "total time"]
        if [w for w, _ in said] != want or int(said[-1][1]) != sum(int(t) for _, t in said[:-1]) or \
                any(int(t) != 9 * (4 * q + 3) for q, (_, t) in enumerate(said[:-1])):
            channel("time", "listing", f"{said} for {want}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def layers_of(proto) -> list:
    return [n for n in proto.graph.node if n.op_type not in ("Dropout", "Reshape", "Flatten", "Constant")]


def reference(proto, case, names, vals, cvals, channel) -> None:
    """The values of the reference run of the same model, and the verdicts of the comparison."""
    from acetone_nnet import debug
    import onnx
    sc, r = case["sc"], random.Random(case["id"])
    x = dataset_of(case, np.float32)[0].reshape(case["ishape"])
    m = onnx.ModelProto()
    m.CopyFrom(proto)
    try:
        _, _, outs = debug.debug_onnx(m, x)
    except Exception as e:  # noqa: BLE001
        channel("reference", "reference", f"{type(e).__name__}: {e}")
        return
    if len(outs) != len(names):
        channel("reference", "length", f"{len(outs)} values, {len(names)} layers")
        return
    # where "same" padding would be negative (stride larger than the kernel) onnxruntime crops: no verdict
    exact = sc == 1 and not any(n["op"] in ("Div", "BatchNormalization") or
                                n["a"].get("auto", "").startswith("SAME") and max(n["a"]["sh"], n["a"]["sw"]) > 1
                                for n in case["nodes"])
    if exact:
        for who, vs in (("c", cvals), ("python", vals)):
            if not debug.compare_result(vs, outs, names):
                channel(f"verdict-{who}", "differs", "the comparison finds a difference in exact values")
    k = r.randrange(len(outs))
    off = [np.array(o) for o in outs]
    j = r.randrange(off[k].size)
    step = r.choice([0.01, 2e-5]) if exact else 0.01
    off[k][j] += (1 if step == 2e-5 else 1 / step) * step * (1 + abs(float(off[k][j])))
    if debug.compare_result(vals, off, names):
        channel("verdict-off", "accepts", f"value {j} of {names[k]} changed, accepted")
    if exact:
        # several layers changed: the report names them, and the first of them
        ks = sorted({k, *r.sample(range(len(outs)), min(len(outs), 2))})
        for q in ks:
            if q != k:
                off[q][r.randrange(off[q].size)] += 1 + r.randint(0, 3)
        with contextlib.redirect_stdout(io.StringIO()) as out:
            debug.compare_result(vals, off, names, verbose=True)
        said = [l for l in out.getvalue().splitlines() if l.startswith(("Error: output value of", "Total number", "First error"))]
        want = [f"Error: output value of {names[q]} incorrect" for q in ks]
        if said[:-2] != want or f": {len(ks)}/{len(names)} " not in said[-2] or said[-1] != f"First error at {names[ks[0]]}":
            channel("verdict-report", "report", f"{said} for {want}")
    if debug.compare_result(vals[:-1], outs, names):
        channel("verdict-short", "accepts", "one value missing, accepted")
    # the same layers, chosen by the names of the tensors
    nodes = layers_of(proto)
    pick = sorted(r.sample(range(len(nodes)), min(len(nodes), 2)))
    m = onnx.ModelProto()
    m.CopyFrom(proto)
    try:
        _, idx, some = debug.debug_onnx(m, x, debug_target=[nodes[q].output[0] for q in pick])
    except Exception as e:
        if type(e).__module__.startswith("onnxruntime"):     # a fault of its optimiser
            return
        raise
    pv, pn = debug.extract_outputs_python((vals, names), idx)
    if pn != [names[q] for q in pick] or len(some) != len(pick):
        channel("reference-choice", "choice", f"{[nodes[q].name for q in pick]}: {pn}")
    elif exact and not debug.compare_result(pv, some, pn):
        channel("reference-choice", "differs", f"{[nodes[q].name for q in pick]}")


def keras_case(i: int):
    r = random.Random(f"dbgjson-{i}-{seed()}")
    for _ in range(400):
        try:
            k = Keras(r, i)
            return (k, *k.build())
        except Reject:
            continue
    return None


def make(arg):
    Net.for_runtime = True      # the debug command runs the network there
    kind, i, s = arg
    r = random.Random(f"dbg-{kind}-{i}-{s}")
    kw = any_options(r, conv_variants())
    kw.pop("to_hex", None)
    if kind == "op":
        ops = sorted(OPS)
        got = op_case(ops[i % len(ops)], i, s + 77)
    elif kind == "layout":
        got = graph_case(i, s, nmin=2, nmax=8, branch=0.4, tag="dbglay", block=True,
                         menus={1: LAYOUT_INT, 256: LAYOUT_RAT, 1024: LAYOUT_RAT})
        kw = {"versions": {"Conv2D": "direct_block"}, "gen_data_format": "channels_last"} if r.random() < .8 else {}
    elif kind == "json":
        got = keras_case(i)
        if got and any(q["class_name"] == "Conv2D" and q["config"]["groups"] > 1 for q in got[0].layers):
            kw = {"versions": {"Conv2D": "direct_block"}}
    else:
        got = graph_case(i, s, nmin=3, nmax=14, branch=0.5, tag="dbg", smooth=r.random() < 0.3)
    if got is None:
        return None
    if kind == "json":
        k, b, o, text = got
    else:
        b, o = got
    cid = f"{kind}-{i}"
    case = b.case(cid, o)
    case["samples"] = case["samples"][:1]
    order = [0] + [v for v in range(1, len(b.name_of)) if b.is_init[v]] + [v for v in range(1, len(b.name_of)) if not b.is_init[v]]
    num = {v: q + 1 for q, v in enumerate(order)}
    if kind == "json":
        d = Path(tempfile.mkdtemp(prefix="acv-dbgj-", dir="/tmp"))
        try:
            (d / "model.json").write_text(text)
            case["channels"] = debug_run(str(d / "model.json"), case, {q: num[v] for q, v in enumerate(k.val)}, "keras",
                                         dtype=np.float64 if k.f64 else np.float32, **kw)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    elif kind == "time":
        case["channels"] = time_run(b.model(o), case, **kw)
    else:
        outs = [v for v in order if v and not b.is_init[v]]
        case["channels"] = debug_run(b.model(o), case, {q: num[v] for q, v in enumerate(outs)}, "onnx",
                                     proto=None if kw.get("optimization") else b.model(o), **kw)
    # an implementation that does not support a layer of the network refuses it
    case["refuse"] = int(kind == "layout" or kw.get("versions", {}).get("Conv2D") is not None)

    class Done:
        @staticmethod
        def case(*_):
            return case
    return Done, o, cid, {"_custom": True}


def run(chk: Check) -> None:
    chk.rule = ("debug run of a random operator, network, blocked network or Keras JSON model: every intermediate value shown by the "
                "C program and by the Python reference, names, choice and verdicts of the debug tools; non-trivial: the values are not constant")
    n = 2 if tier() == "quick" else 15
    plan = [("op", i, seed()) for i in range(len(OPS) * n)] + [("net", i, seed()) for i in range(120 * n)] + \
        [("layout", i, seed()) for i in range(50 * n)] + [("json", i, seed()) for i in range(60 * n)] + [("time", i, seed()) for i in range(30 * n)]
    run_cases(chk, plan, make, channels=())
