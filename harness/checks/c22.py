"""C22: the registry of implementations, over histories of registrations, creations and generations."""
from __future__ import annotations

import json
import random
import re
import shutil
import tempfile
from pathlib import Path

import numpy as np

from acv_core import Check, MachineryError, pool_map, seed, tier, tlc, tlc_model, tlc_trace
from acv_nets import OPS, Net, Reject
from acv_run import compile_run, dataset_of, read_lines
from checks.c07 import quiet
from checks.net import judge

IN_NET = ("Conv2D", "Add", "Relu", "Sigmoid")
NAME = {"unnamed": None}     # what a layer has when nothing is asked


def network(r: random.Random):
    """Convolutions, sums and activations, several of each."""
    while True:
        b = Net(r, [1, r.randint(1, 3), r.randint(2, 4), r.randint(2, 4)], 1024, 2, -1, 1)
        x = 0
        steps = ["Conv", "Add", "Relu", "Sigmoid", *r.sample(["Conv", "Add", "Relu", "Sigmoid"], 2)]
        r.shuffle(steps)
        try:
            for s in steps:
                for _ in range(8):
                    keep = (len(b.init_protos), len(b.inits))
                    same = [v for v in range(len(b.name_of)) if v != x and not b.is_init[v] and b.shape(v) == b.shape(x)]
                    try:
                        x = OPS[s](b, x, *([r.choice(same)] if s == "Add" and same and r.random() < 0.5 else []))
                        break
                    except Reject:
                        b.drop_last_init(*keep)
                else:
                    raise Reject("step")
            loose = [v for v in range(len(b.name_of)) if not b.is_init[v] and b.uses[v] == 0]
            if loose == [x]:
                return b, x
        except Reject:
            continue


def listing(A) -> list[dict]:
    return [{"t": str(t), "ns": [str(n) for n in ns]} for t, ns in A.list_all_implementations().items()]


def replay(arg):
    """A history, against the real registry, which is put back as it was."""
    i, hist = arg
    import acetone_nnet as A
    from acetone_nnet.versioning import layer_factories as lf
    table = lf.implemented
    saved = dict(table)
    kept = {t: dict(f.implementations) for t, f in saved.items()}
    r = random.Random(f"reg-{i}-{seed()}")
    b, o = network(r)
    model, case = b.model(o), b.case(f"reg-{i}", o)
    case["channels"] = []
    n = len(case["samples"])
    first = {}
    types = [{**e, "ns": [*e["ns"], *(["unnamed"] if None in saved[e["t"]].implementations else [])], "f": first.setdefault(id(saved[e["t"]]), e["t"])} for e in listing(A)]

    def variant(base, alg, k):
        def make(layer, version):
            lay = base(layer, alg)
            cls = type(lay)

            def emit(self):
                return f"/*REG {self.idx} {k}*/\n" + cls.generate_inference_code_layer(self)
            lay.__class__ = type(cls.__name__, (cls,), {"generate_inference_code_layer": emit})
            return lay
        return make

    gens, events = {}, []
    last = max(j for j, e in enumerate(hist, 1) if e["k"] == "gen")
    try:
        for k, e in enumerate(hist, 1):
            e = {**e, "outcome": "ok", "msg": ""}
            try:
                if e["k"] == "reg":
                    e["id"] = k
                    own = kept.get(e["t"], {})
                    bases = [x for x in own if x not in (None, "direct_block", "channels_last")] or [None]
                    alg = r.choice(bases)
                    base = own.get(alg)
                    table[e["t"]].register_implementation(NAME.get(e["n"], e["n"]), variant(base, alg, k))
                elif e["k"] == "fac":
                    A.register_factory(e["t"], lf.LayerFactory(e["t"]))
                elif e["k"] == "new":
                    req = e["req"]
                    e["req"] = [{"t": t, "n": n} for t, n in req.items()]
                    items = [(t, NAME.get(n, n)) for t, n in req.items()]
                    asked = dict(items)
                    with quiet():
                        if e["by"] == "index":
                            g = A.CodeGenerator(file=model, function_name="f", nb_tests=n, optimization=False,
                                                test_dataset=dataset_of(case, np.float32))
                            items = [(l.idx, asked[l.name]) for l in g.layers if l.name in asked]
                            r.shuffle(items)
                        g = A.CodeGenerator(file=model, function_name="f", nb_tests=n, optimization=False,
                                            test_dataset=dataset_of(case, np.float32), versions=dict(items))
                    gens[e["slot"]] = g
                else:
                    d = Path(tempfile.mkdtemp(prefix="acv-reg-", dir="/tmp"))
                    try:
                        g = gens.get(e["slot"])
                        e["seen"] = []
                        if g is not None:
                            with quiet():
                                g.generate_c_files(d / "c")
                            marks = {int(a): int(b) for a, b in re.findall(r"/\*REG (\d+) (\d+)\*/", (d / "c" / "inference.c").read_text())}
                            if k == last:
                                st, msg = compile_run(d / "c")
                                case["channels"] = [{"name": "c", "status": st, "msg": msg[-600:], "lay": "as_is",
                                                     "out": read_lines(d / "c" / "output_c.txt", case["sc"], n) if st == "ok" else [[]] * n}]
                            e["seen"] = [{"t": l.name, "id": marks.get(l.idx, 0)} for l in g.layers if l.name in IN_NET]
                    finally:
                        shutil.rmtree(d, ignore_errors=True)
            except Exception as ex:  # noqa: BLE001
                e["outcome"], e["msg"] = "refused", f"{type(ex).__name__}: {ex}"[:200]
                e.setdefault("seen", [])
            try:
                e["list"] = listing(A)
            except Exception as ex:  # noqa: BLE001
                e["list"], e["msg"] = [], f"{type(ex).__name__}: {ex}"[:200]
            events.append(e)
    finally:
        table.clear()
        table.update(saved)
        for t, f in saved.items():
            f.implementations = dict(kept[t])
    return {"id": f"reg-{i}", "types": types, "events": events, "case": case}


def histories(n: int) -> list[list]:
    r = tlc("Registry", "RegistrySim.cfg", extra=["-simulate", f"num={n * 12}", "-depth", "10", "-seed", str(seed() * 7919 + 5)])
    hs = []
    for line in r["out"].splitlines():
        if line.startswith('"HIST '):
            h = json.loads(json.loads(line)[5:])
            if h not in hs:
                hs.append(h)
    if len(hs) < n:
        raise MachineryError("TLC gave too few histories\n" + r["out"][-800:])

    def worth(h):       # registrations under a name taken, and used later
        regs = [(e["t"], e["n"]) for e in h if e["k"] == "reg"]
        return -(len(regs) - len(set(regs))) - sum(e["k"] == "gen" for e in h)
    hs.sort(key=worth)
    rest = hs[n // 2:]
    random.Random(seed()).shuffle(rest)
    return hs[: n // 2] + rest[: n - n // 2]


def run(chk: Check) -> None:
    quick = tier() == "quick"
    m = tlc_model("Registry", "Registry.cfg" if quick else "Registry5.cfg")
    if not m["ok"]:
        raise MachineryError("Registry does not hold\n" + m["out"][-1500:])
    chk.add_states(m)
    if tlc_model("Registry", "RegistryOver.cfg")["ok"]:
        raise MachineryError("Registry: the negative control passes")
    n = 160 if quick else 1200
    cases = []
    plan = list(enumerate(histories(n)))
    for a, (st, v) in zip(plan, pool_map(replay, plan, 60)):
        if st == "error":
            raise MachineryError(f"{a}: {v}")
        if st != "ok":
            chk.violation(f"{a[0]}: {st} {v}", {"history": a[1]})
            continue
        cases.append(v)
        chk.add_case(json.dumps(a[1]), [[e["k"], e.get("t"), e.get("n"), e.get("slot"), e["outcome"]] for e in v["events"]])
    slim = [{"id": c["id"], "types": c["types"], "events": [{x: z for x, z in e.items() if x != "by"} for e in c["events"]]} for c in cases]
    r = tlc_trace("RegistryTrace", slim, cost=lambda c: len(c["events"]))
    chk.add_states(r)
    by = {c["id"]: c for c in cases}
    for b in r["bad"]:
        chk.violation(f"{b['case']} event {b['event']}: {b['clause']} {b['arg']}",
                      {"verdict": b, "history": [{x: z for x, z in e.items() if x != "list"} for e in by[b["case"]]["events"][: b["event"]]]})
    # what the last generation of each history computes
    judge(chk, [c["case"] for c in cases if c["case"]["channels"]])
    chk.rule = ("RegistryTrace: registrations of implementations and layer types, creations of generators that select them by type or by index, "
                "and generations, in histories drawn by TLC; the program of the last one is run, and judged by NetTrace; non-trivial: a registration used by a later generation")
    chk.cov = {"histories_from_tlc": n, "events": sum(len(c["events"]) for c in cases),
               "refused": sum(e["outcome"] != "ok" for c in cases for e in c["events"])}
