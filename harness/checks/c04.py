"""C04: storage of tensors -- every layer finds its operands intact, every tensor fits its slot."""
from __future__ import annotations

import contextlib
import io
import itertools
import random
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

import numpy as np
from onnx import TensorProto, helper, numpy_helper

from acv_cases import graph_case
from acv_core import Check, MachineryError, pool_map, seed, tier, tlc_model, tlc_trace
from acv_run import compile_run, dataset_of, read_lines
from checks.net import judge


# --------------------------------------------------------------------------- every small network
def shapes_of(n: int, maxops: int = 2):
    """Every network of n layers with one sink, as operand tuples (tensor 0 is the input)."""
    def rec(k):
        if k == 0:
            yield ()
            return
        for q in rec(k - 1):
            for m in range(1, maxops + 1):
                for o in itertools.product(range(k), repeat=m):
                    yield (*q, o)
    for q in rec(n):
        used = {x for o in q for x in o}
        if all(k in used for k in range(n)):     # tensors 0..n-1 are read, n is the output
            yield q


def build(ops, rng: random.Random, reorder: bool = True):
    """ONNX model of the network, with values that make every tensor different; and its NetTrace form."""
    n = len(ops)
    names = ["input"] + [f"t{k}" for k in range(1, n + 1)]
    shape = {0: [1, rng.choice([1, 2]), 1, 2]}
    inits, protos, nodes, plain = [], [], [], []
    for k in range(1, n + 1):
        o = ops[k - 1]
        if len(o) == 1:
            kind = rng.choice(["Add", "Add", "Sub", "Relu", "Tile"])
            s = shape[o[0]]
            if kind == "Tile" and int(np.prod(s)) <= 8:
                rep = [1, rng.choice([1, 2]), rng.choice([1, 2]), 1]
                protos.append(numpy_helper.from_array(np.array(rep, np.int64), f"r{k}"))
                plain.append(("Tile", [names[o[0]], f"r{k}"], {}))
                nodes.append({"op": "Tile", "a": {"reps": rep}, "ins": [("t", o[0])]})
                shape[k] = [a * b for a, b in zip(s, rep)]
                continue
            if kind == "Relu":
                plain.append(("Relu", [names[o[0]]], {}))
                nodes.append({"op": "Relu", "a": {"z": 0}, "ins": [("t", o[0])]})
            else:
                kind = "Add" if kind == "Tile" else kind
                c = [rng.randint(-40, 40) for _ in range(s[1])]
                protos.append(numpy_helper.from_array(np.array(c, np.float32).reshape(1, -1, 1, 1), f"w{k}"))
                inits.append({"s": [1, s[1], 1, 1], "d": c})
                plain.append((kind, [names[o[0]], f"w{k}"], {}))
                nodes.append({"op": kind, "a": {"z": 0}, "ins": [("t", o[0]), ("i", len(inits))]})
            shape[k] = list(s)
        else:
            same = all(shape[x] == shape[o[0]] for x in o)
            if same and rng.random() < 0.75:
                kind = rng.choice(["Max", "Min"] if len(o) > 2 else ["Add", "Sub", "Max", "Min"] if len(set(o)) > 1
                                  else ["Add", "Concat"])
            else:
                kind = "Concat"
            if kind == "Concat":
                ax = [a for a in (1, 2, 3) if all(shape[x][b] == shape[o[0]][b] for x in o for b in (1, 2, 3) if b != a)]
                if not ax or sum(int(np.prod(shape[x])) for x in o) > 64:
                    return None
                ax = rng.choice(ax)
                plain.append(("Concat", [names[x] for x in o], {"axis": ax}))
                nodes.append({"op": "Concat", "a": {"axis": ax}, "ins": [("t", x) for x in o]})
                shape[k] = list(shape[o[0]])
                shape[k][ax] = sum(shape[x][ax] for x in o)
            else:
                plain.append((kind, [names[x] for x in o], {}))
                nodes.append({"op": kind, "a": {"z": 0}, "ins": [("t", x) for x in o]})
                shape[k] = list(shape[o[0]])
    num = lambda q: 1 + q[1] if q[0] == "i" else (1 if q[1] == 0 else 1 + len(inits) + q[1])  # noqa: E731
    for nd in nodes:
        nd["ins"] = [num(q) for q in nd["ins"]]
    order = list(range(n))
    if reorder:                       # another topological order of the same node list
        left, order = set(range(n)), []
        while left:
            ready = [k for k in left if all(x == 0 or x - 1 not in left for x in ops[k])]
            order.append(rng.choice(ready))
            left.discard(order[-1])
    np_ = [helper.make_node(op, ins, [names[k + 1]], name=names[k + 1], **at) for k, (op, ins, at) in enumerate(plain)]
    g = helper.make_graph([np_[k] for k in order], "g", [helper.make_tensor_value_info("input", TensorProto.FLOAT, shape[0])],
                          [helper.make_tensor_value_info(names[n], TensorProto.FLOAT, shape[n])], initializer=protos)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", 18)])
    m.ir_version = 8
    m_in = int(np.prod(shape[0]))
    case = {"sc": 1, "tol": 1, "ishape": shape[0], "samples": [[rng.randint(-50, 50) for _ in range(m_in)]],
            "inits": inits, "nodes": nodes, "outv": 1 + len(inits) + n, "channels": []}
    return m, case


# --------------------------------------------------------------------------- observation
def schedule(g, named: bool) -> dict:
    """Schedule and storage of the layers the generator is about to emit."""
    layers = []
    # a layer of the schedule is known by its index: versioning replaces layer objects, links keep the old ones
    name = {}
    for l in g.layers:
        name[l.idx] = l.original_name if named and l.original_name else f"#{l.idx}"
    if named and g.layers:
        name[g.layers[0].idx] = "input"
    consts = {l.idx for l in g.layers if "Constant" in type(l).__name__}
    for l in g.layers:
        ops = list(l.previous_layer)
        layers.append({"t": name.get(l.idx, "?"), "ops": [name.get(p.idx, f"absent #{p.idx}") for p in ops],
                       "rd": [p.output_str for p in ops], "path": f"output_{l.path}",
                       "copy": f"cst_{g.dict_cst[l.idx]}" if l.idx in g.dict_cst else "", "size": int(l.size),
                       "const": l.idx in consts})
    return {"layers": layers, "out": layers[-1]["t"], "outslot": layers[-1]["path"]}


def capacities(d: Path) -> list[dict]:
    """Sizes of the slots, asked to the C compiler."""
    h = (d / "inference.h").read_text()
    slots = sorted(set(re.findall(r"\b(output_\d+|cst_\d+)\b", h)))
    src = "#include <stdio.h>\n#include \"inference.h\"\nint main(void){inference_t *c=0;\n" + "".join(
        f'printf("{s} %zu\\n", sizeof(c->{s})/sizeof(c->{s}[0]));\n' for s in slots) + "return 0;}\n"
    (d / "probe_cap.c").write_text(src)
    p = subprocess.run(["gcc", "-w", "-o", "probe_cap", "probe_cap.c"], cwd=d, capture_output=True, text=True)
    (d / "probe_cap.c").unlink()
    if p.returncode:
        return []
    out = subprocess.run(["./probe_cap"], cwd=d, capture_output=True, text=True).stdout
    (d / "probe_cap").unlink()
    return [{"slot": w.split()[0], "size": int(w.split()[1])} for w in out.splitlines()]


def observe(model, case, cid, net, strict, run_c, optimization=False, rng=None):
    import acetone_nnet as A
    d = Path(tempfile.mkdtemp(prefix="acv-run-", dir="/tmp"))
    tr = {"id": cid, "strict": strict, "net": net, "layers": [], "cap": [], "out": "", "outslot": "", "status": "ok"}
    ch = {"name": "c", "status": "ok", "msg": "", "lay": "as_is", "out": [[]] * len(case["samples"])}
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            g = A.CodeGenerator(file=model, function_name="net", nb_tests=len(case["samples"]),
                                test_dataset=dataset_of(case, np.float32), optimization=optimization)
            tr.update(schedule(g, strict == 1))
            if run_c:
                g.generate_c_files(str(d / "c"))
        if run_c:
            tr["cap"] = capacities(d / "c")
            ch["status"], ch["msg"] = compile_run(d / "c")
            if ch["status"] == "ok":
                ch["out"] = read_lines(d / "c" / "output_c.txt", case["sc"], len(case["samples"]))
    except Exception as e:  # noqa: BLE001
        tr["status"] = f"{type(e).__name__}: {e}"[:300]
        ch["status"] = "generate"
        ch["msg"] = str(e)[:300]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if strict != 1:
        tr["net"] = [{"t": l["t"], "ops": l["ops"]} for l in tr["layers"]]
    case = {**case, "id": cid, "channels": [ch] if run_c else []}
    return tr, case


def small(arg):
    n, ops, i, run_c = arg
    rng = random.Random(f"alloc-{n}-{i}-{seed()}")
    for _ in range(60):
        r = build(ops, rng)
        if r:
            break
    else:
        return None
    m, case = r
    names = ["input"] + [f"t{k}" for k in range(1, n + 1)]
    net = [{"t": "input", "ops": []}] + [{"t": names[k], "ops": [names[x] for x in ops[k - 1]]} for k in range(1, n + 1)]
    return observe(m, case, f"dag-{n}-{i}", net, 1, run_c)


def big(arg):
    i, opt = arg
    r = graph_case(i, seed(), nmin=5, nmax=12, branch=0.6, tag="alloc")
    if r is None:
        return None
    b, o = r
    return observe(b.model(o), b.case("x", o), f"net-{i}-{'opt' if opt else 'raw'}", [], 0, True, optimization=opt)


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("every network of up to N layers with at most two operands each and one sink, imported, scheduled and "
                "replayed on the storage semantics, a part of them also compiled and run; random larger networks with "
                "and without optimisation; non-trivial: at least one tensor is read by two layers or twice")
    # the design, over every network and every reuse order
    m = tlc_model("Alloc", "Alloc.cfg" if quick else "Alloc5.cfg")
    if not m["ok"]:
        raise MachineryError("Alloc: the storage discipline does not hold on the model:\n" + m["out"][-2000:])
    bad = tlc_model("Alloc", "AllocFirst.cfg")
    if bad["ok"]:
        raise MachineryError("Alloc: the model cannot tell a wrong release rule")
    chk.add_states(m)
    chk.cov["exhaustive"] = True
    nets = [(n, q) for n in ((1, 2, 3, 4) if quick else (1, 2, 3, 4, 5)) for q in shapes_of(n)]
    rng = random.Random(f"c04-{seed()}")
    if not quick:
        five = [q for q in nets if q[0] == 5]
        nets = [q for q in nets if q[0] < 5] + rng.sample(five, min(len(five), 20000))
    args = [(n, q, i, rng.random() < (0.12 if quick else 0.3)) for i, (n, q) in enumerate(nets)]
    extra = []
    for i in range(150 if quick else 2500):     # larger networks of the same kind
        n = rng.randint(5, 11)
        q = tuple(tuple(rng.randint(max(0, k - rng.choice([1, 2, 9])), k - 1) for _ in range(rng.choice([1, 1, 2, 2, 3])))
                  for k in range(1, n + 1))
        used = {x for o in q for x in o}
        loose = [k for k in range(n) if k not in used]
        q = (*q[:-1], tuple(dict.fromkeys([*q[-1], *loose])))
        args.append((n, q, len(nets) + i, True))
    res = pool_map(small, args, 60)
    more = [(i, i % 2 == 0) for i in range(60 if quick else 1500)]
    res += pool_map(big, more, 60)
    traces, cases = [], []
    for a, (st, v) in zip(args + more, res):
        if st == "error":
            raise MachineryError(f"{a}: {v}")
        if st != "ok":
            chk.violation(f"{a}: {st} {v}", {"case": repr(a)})
            continue
        if v is None:
            continue
        traces.append(v[0])
        if v[1]["channels"]:
            cases.append(v[1])
    # constants have no operand and appear only in the schedule: they are known tensors
    for t in traces:
        t["consts"] = [l["t"] for l in t["layers"] if l.get("const")]
        if t["strict"] == 1:
            t["net"] = t["net"] + [{"t": l["t"], "ops": []} for l in t["layers"] if l.pop("const", False)]
        for l in t["layers"]:
            l.pop("const", None)
    r = tlc_trace("AllocTrace", traces, cost=lambda t: len(t["layers"]) + 2)
    chk.add_states(r)
    by = {t["id"]: t for t in traces}
    for t in traces:
        if any(l["copy"] for l in t["layers"]):
            chk.keys.add(str([(l["ops"], l["path"], l["copy"]) for l in t["layers"]]))
        chk.traces += 1
        chk.evaluations += 1
        if len(chk.samples) < 2 and any(l["copy"] for l in t["layers"]):
            chk.samples.append({"id": t["id"], "layers": t["layers"]})
    for b in r["bad"]:
        chk.violation(f"{b['case']} layer {b['layer']}: {b['clause']} {b['arg']}", {"verdict": b, "trace": by[b["case"]]})
    judge(chk, cases, "run ")
