"""C07: implementation variants -- same function whatever is selected, and exactly what is selected changes."""
from __future__ import annotations

import contextlib
import io
import random
import re
import shutil
import tempfile
from pathlib import Path

import numpy as np

from acv_cases import graph_case, op_case
from acv_core import Check, MachineryError, pool_map, seed, tier, tlc_trace
from acv_run import dataset_of, full_run
from checks.net import judge


def quiet():
    s = contextlib.ExitStack()
    s.enter_context(contextlib.redirect_stdout(io.StringIO()))
    s.enter_context(contextlib.redirect_stderr(io.StringIO()))
    return s


def variants(factory: str) -> list[str]:
    from acetone_nnet.versioning.layer_factories import implemented
    return list(implemented[factory].list_implementations)


def conv_variants() -> list[str]:
    return [v for v in variants("Conv2D") if "gemm" in v or "loops" in v]


def net_for(i: int):
    rng = random.Random(f"ver-{i}-{seed()}")
    if i % 2:
        return op_case("Conv", i, seed() + 70)
    return graph_case(i, seed(), nmin=4, nmax=9, branch=0.5, tag="ver")


def numeric(arg):
    import acetone_nnet as A
    i, pick = arg
    r = net_for(i)
    if r is None:
        return None
    b, o = r
    rng = random.Random(f"pick-{i}-{seed()}")
    model = b.model(o)
    opt = rng.random() < 0.3
    case = b.case(f"ver-{i}", o)
    vs = conv_variants()
    try:
        with quiet():
            g = A.CodeGenerator(file=model, function_name="f", nb_tests=1, test_dataset=dataset_of(case, np.float32)[:1],
                                optimization=opt)
        convs = [l.idx for l in g.layers if l.name == "Conv2D"]
        pools = [l.idx for l in g.layers if "Pooling" in l.name]
    except Exception:  # noqa: BLE001
        convs, pools = [], []
    if not convs and not pools:
        return None
    if rng.random() < 0.3:
        ver = {"Conv2D": pick}
    else:
        ver = {k: (pick if n == 0 else rng.choice(vs)) for n, k in enumerate(convs) if n == 0 or rng.random() < 0.8}
        if rng.random() < 0.3:
            ver["Conv2D"] = rng.choice(vs)
    for k in pools:
        if rng.random() < 0.3:
            ver[k] = "default"
    case["id"] += f"-{ver}"
    case["channels"] = full_run(model, case, channels=("c", "python") if i % 5 == 0 else ("c",), optimization=opt, versions=ver,
                                bin_dataset=i % 6 == 1)
    return case


# ---------------------------------------------------------------------- selection
def marking() -> None:
    """Have every implementation of every layer mark the code it emits (in this process only)."""
    from acetone_nnet.versioning.layer_factories import implemented

    def mark(fn, name):
        def make(layer, version):
            lay = fn(layer, version)
            cls = type(lay)

            def emit(self):
                return f"/*ACV {self.idx} {name}*/\n" + cls.generate_inference_code_layer(self)
            lay.__class__ = type(cls.__name__, (cls,), {"generate_inference_code_layer": emit})
            return lay
        return make
    done = set()
    for f in implemented.values():
        if id(f) in done:
            continue
        done.add(id(f))
        base = f.implementations[None]
        f.register_implementation("acv_one", base)
        f.register_implementation("acv_two", base)
        for n in list(f.implementations):
            f.implementations[n] = mark(f.implementations[n], "default" if n is None else n)


def emitted(model, case, opt, ver):
    import acetone_nnet as A
    d = Path(tempfile.mkdtemp(prefix="acv-run-", dir="/tmp"))
    try:
        with quiet():
            g = A.CodeGenerator(file=model, function_name="f", nb_tests=1, optimization=opt,
                                test_dataset=dataset_of(case, np.float32)[:1], **({"versions": ver} if ver is not None else {}))
            g.generate_c_files(d / "c")
        seen = [{"idx": int(a), "name": n} for a, n in re.findall(r"/\*ACV (\d+) (\w+)\*/", (d / "c" / "inference.c").read_text())]
        return [(l.idx, l.name) for l in g.layers], seen, "ok"
    except Exception as e:  # noqa: BLE001
        return [], [], f"{type(e).__name__}: {e}"[:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)


_MARKED = []


def selection(i):
    if not _MARKED:
        marking()
        _MARKED.append(1)
    r = graph_case(i, seed(), nmin=4, nmax=9, branch=0.5, tag="sel")
    if r is None:
        return None
    b, o = r
    rng = random.Random(f"sel-{i}-{seed()}")
    model, opt = b.model(o), rng.random() < 0.4
    case = b.case("x", o)
    lays, seen0, st = emitted(model, case, opt, None)
    if st != "ok":
        return {"id": f"sel-{i}", "layers": [], "req": [], "seen": [], "status": st}
    base = {s["idx"]: s["name"] for s in seen0}
    ver = {}
    for idx, name in lays:
        have = ["acv_one", "acv_two"] + (conv_variants() if name == "Conv2D" else [])
        if rng.random() < 0.35:
            ver[idx] = rng.choice(have)
        if rng.random() < 0.25:
            ver[name] = rng.choice(have)
    items = list(ver.items())
    rng.shuffle(items)
    _, seen, st = emitted(model, case, opt, dict(items))
    return {"id": f"sel-{i}-{'opt' if opt else 'raw'}", "status": st, "seen": seen,
            "layers": [{"idx": a, "type": n, "base": base.get(a, "none")} for a, n in lays],
            "req": [{"key": f"#{k}" if isinstance(k, int) else k, "name": v} for k, v in items]}


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("random networks with convolutions and poolings, each generated with another choice of implementations (per "
                "index and per type); random networks with marked implementations and random requests; non-trivial: outputs "
                "not constant")
    n = 650 if quick else 6000
    vs = conv_variants()
    plan = [(i, vs[(i // 2) % len(vs)]) for i in range(n)]
    cases = []
    for a, (st, v) in zip(plan, pool_map(numeric, plan, 60)):
        if st == "error":
            raise MachineryError(f"{a}: {v}")
        if st != "ok":
            chk.violation(f"{a}: {st} {v}", {"case": repr(a)})
        elif v is not None:
            cases.append(v)
    judge(chk, cases)
    sel = []
    for a, (st, v) in zip(range(n), pool_map(selection, list(range(150 if quick else 1200)), 60)):
        if st == "error":
            raise MachineryError(f"selection {a}: {v}")
        if st != "ok":
            chk.violation(f"selection {a}: {st} {v}", {"case": a})
        elif v is not None:
            sel.append(v)
    r = tlc_trace("SelectTrace", sel)
    chk.add_states(r)
    chk.traces += len(sel)
    by = {t["id"]: t for t in sel}
    for b in r["bad"]:
        chk.violation(f"{b['case']} layer {b['idx']}: {b['clause']} {b['got']} instead of {b['want']}", {"verdict": b, "trace": by[b["case"]]})
