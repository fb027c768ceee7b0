"""C21: what the Makefile builds -- histories of edits and builds of generated directories, with stand-ins for the compilers."""
from __future__ import annotations

import contextlib
import hashlib
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

import numpy as np

from acv_cases import graph_case
from acv_core import Check, MachineryError, pool_map, seed, tier, tlc, tlc_model, tlc_trace
from acv_nets import OPS, Net, Reject
from acv_run import dataset_of

TOOL = """#!{py} -ISs
import hashlib, json, os, re, sys
tool, args = os.path.basename(sys.argv[0]), sys.argv[1:]
ver = lambda f: hashlib.md5(open(f, "rb").read()).hexdigest()[:8]
of = {{}}
def source(f):
    of[f] = ver(f)
    for h in re.findall(rb'#\\s*include\\s*"([^"]+)"', open(f, "rb").read()):
        if os.path.exists(h.decode()):
            source(h.decode())
def given(f):
    if f.endswith(".c"):
        source(f)
    elif f.endswith(".dat"):
        of[f] = ver(f)
    else:
        of.update(json.load(open(f)))
rec = {{"tool": tool, "comp": 0, "shared": 0, "pic": 0, "flags": [], "tail": [], "out": ""}}
if tool == "objcopy":
    given(args[-2])
    rec["out"] = args[-1]
else:
    it = iter(args)
    for a in it:
        if a == "-c":
            rec["comp"] = 1
        elif a == "-shared":
            rec["shared"] = 1
        elif a == "-fPIC":
            rec["pic"] = 1
        elif a == "-o":
            rec["out"] = next(it)
        elif a.startswith("-"):
            rec["flags"].append(a)
            rec["tail"].append(a)
        else:
            given(a)
            rec["tail"] = []
json.dump(of, open(rec["out"], "w"))
open("../calls", "a").write(json.dumps(rec) + "\\n")
"""
TOOLS = ["gcc", "cc", "clang", "mycc", "arm-none-eabi-gcc", "objcopy"]


def histories(n: int) -> list:
    r = tlc("BuildHistory", "BuildHistorySim.cfg", workers=1, extra=["-simulate", f"num={n * 12}", "-depth", "9", "-seed", str(seed() * 7919 + 21)])
    hs = []
    for line in r["out"].splitlines():
        if line.startswith('"HIST '):
            h = json.loads(json.loads(line)[5:])
            if h not in hs:
                hs.append(h)
    if len(hs) < n // 2:
        raise MachineryError("TLC gave too few histories\n" + r["out"][-800:])
    random.Random(seed()).shuffle(hs)
    return hs[:n]


def words(r, menu, most=3):
    return [r.choice(menu) for _ in range(r.randint(0, most))]


def options(r, binary: bool) -> dict:
    o = {"ext": r.random() < 0.15, "bin": binary, "custom": r.choice(["none", "none", "helper", "helper", "nomain"]) if r.random() < 0.6 else "none",
         "target": False, "name": r.choice(["net_exe", "net_exe", "app", "demo-2", "inference", "x"]),
         "cc": r.choice(["", "", "mycc", "clang"]), "tcc": "", "hascf": r.random() < 0.6, "cf": [], "haslf": r.random() < 0.6, "lf": [], "tcf": [], "tlf": []}
    if o["hascf"]:
        o["cf"] = words(r, ["-O0", "-O2", "-w", "-DN=3", "-std=c99", "-Wall", "-Iinclude", "-g"])
    if o["haslf"]:
        o["lf"] = words(r, ["-lm", "-lpthread", "-static", "-L.", "-ldl"])
    if r.random() < 0.45:
        o["target"] = True
        if r.random() < 0.8:
            o["json"] = True
            if r.random() < 0.6:
                o["tcf"] = words(r, ["-O1", "-O2", "-w", "-march=native", "-funroll-loops"], 2) or ["-O3"]
            if r.random() < 0.6:
                o["tlf"] = words(r, ["-lc", "-lm", "-lgcc", "-Tmap.ld"], 2) or ["-lc"]
            if r.random() < 0.5:
                o["tcc"] = r.choice(["arm-none-eabi-gcc", "mycc"])
    return o


def model_of(r, i, plain: bool):
    if not plain:
        return graph_case(i, seed(), nmin=2, nmax=4, tag="build")
    for _ in range(50):     # without parameters
        b = Net(r, [1, 2, 3, 3], 1, 2, -3, 3)
        try:
            o = OPS["Relu"](b, 0)
            return b, OPS["MaxPool"](b, o) if r.random() < 0.5 else o
        except Reject:
            continue
    return None


def digest(p: Path) -> str:
    return hashlib.md5(p.read_bytes()).hexdigest()[:8]


def make_case(arg):
    i, h = arg
    r = random.Random(f"build-{i}-{seed()}")
    o = options(r, h["bin"])
    js = o.pop("json", False)
    if js:
        o["bin"] = False
    built = model_of(r, i, js)
    case = {"id": f"build-{i}", "o": o, "status": "ok", "caller": True, "files": [], "inc": [], "events": []}
    if built is None:
        return None
    b, out = built
    d = Path(tempfile.mkdtemp(prefix="acv-build-", dir="/tmp"))
    cwd = os.getcwd()
    try:
        tools = d / "bin"
        tools.mkdir()
        for t in TOOLS:
            (tools / t).write_text(TOOL.format(py=sys.executable))
            (tools / t).chmod(0o755)
        os.chdir(d)
        kw = {}
        if o["target"]:
            kw["target"] = "AVX512VNNI"
            if js:
                t = {"name": "AVX512VNNI", "quantization": {"dtype": "float", "pydtype": "float32", "temp_dtype": "float", "temp_pydtype": "float32", "layers": {}}}
                for key, v in (("cflags", o["tcf"]), ("ldflags", o["tlf"])):
                    if v:
                        t[key] = " ".join(v)
                if o["tcc"]:
                    t["compiler"] = o["tcc"]
                (d / "AVX512VNNI.json").write_text(json.dumps(t))
        props = {**({"compiler": o["cc"]} if o["cc"] else {}), **({"compiler_flags": list(o["cf"])} if o["hascf"] else {}),
                 **({"linker_flags": list(o["lf"])} if o["haslf"] else {})}
        if props or r.random() < 0.5:
            kw["makefile_properties"] = props
        if o["custom"] == "helper":
            # a source, its header, and files which are not to be compiled
            texts = {"helper.c": '#include "helper.h"\nint helper(void) { return HELPER; }\n', "helper.h": "#define HELPER 3\n", "values.csv": "1;2\n",
                     "report.html": "<p>\n", "setup.cfg": "a=1\n"}
            names = ["helper.c", "helper.h", *r.sample(["values.csv", "report.html", "setup.cfg"], r.randint(1, 3))]
            kw["custom_generation_functions"] = {"Extra": [(n, lambda s, p, n=n: (Path(p) / n).write_text(texts[n])) for n in names]}
        elif o["custom"] == "nomain":
            kw["custom_generation_functions"] = {"Main": []}
        w = d / "c"
        before = json.dumps(props)
        try:
            import acetone_nnet as A
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
                def gen(where):
                    g = A.CodeGenerator(file=b.model(out), function_name=o["name"], nb_tests=2, test_dataset=None if o["ext"] else dataset_of(b.case("x", out), np.float32),
                                        external_input=o["ext"], bin_dataset=o["bin"], **kw)
                    g.generate_c_files(str(where))
                    return g
                if r.random() < 0.4:        # another generation with the same properties
                    g = gen(d / "first")
                    if r.random() < 0.5:
                        g.generate_c_files(str(w))
                    else:
                        gen(w)
                else:
                    gen(w)
        except Exception as e:  # noqa: BLE001
            return {**case, "status": f"{type(e).__name__}: {e}"[-200:]}
        case["caller"] = json.dumps(props) == before
        files = sorted(p.name for p in w.iterdir())
        case["files"] = [{"n": n, "d": digest(w / n)} for n in files]
        read = {n: set(re.findall(r'#\s*include\s*"([^"]+)"', (w / n).read_text(errors="replace"))) & set(files) for n in files if n[-2:] in (".c", ".h")}
        for n in files:
            if n.endswith(".c"):
                seen, todo = set(), list(read[n])
                while todo:
                    x = todo.pop()
                    if x not in seen:
                        seen.add(x)
                        todo += read.get(x, [])
                case["inc"].append({"n": n, "hs": sorted(seen)})
        env = {"PATH": f"{tools}:{os.environ['PATH']}", "HOME": str(d), "LC_ALL": "C"}
        number = 0
        for e in h["h"]:
            time.sleep(0.015)
            name = {"exe": o["name"], "exe.so": o["name"] + ".so"}.get(e.get("f"), e.get("f"))
            if e["k"] == "edit":
                p = w / name
                if not p.exists():
                    p = w / (name.replace(".dat", ".c") if (w / name.replace(".dat", ".c")).exists() else "inference.h")
                number += 1
                with p.open("ab") as f:
                    f.write(bytes(8) if p.suffix == ".dat" else f"\n/* {number} */\n".encode())
                case["events"].append({"k": "edit", "f": p.name, "d": digest(p)})
            elif e["k"] == "drop":
                p = w / name
                if p.exists():
                    p.unlink()
                    case["events"].append({"k": "drop", "f": name})
            else:
                goal = e["goal"]
                if goal == "all" and r.random() < 0.3:
                    goal = ""
                target = {"exe": [o["name"]], "so": [o["name"] + ".so"], "": []}.get(goal, [goal])
                calls = d / "calls"
                calls.unlink(missing_ok=True)
                p = subprocess.run(["make", *r.choice([[], ["-s"], ["-j4"]]), *target], cwd=w, env=env, capture_output=True, text=True, timeout=60)
                rec = [json.loads(x) for x in calls.read_text().splitlines()] if calls.exists() else []
                prods, after = [], []
                for q in sorted(w.iterdir()):
                    if q.name in files:
                        after.append({"n": q.name, "d": digest(q)})
                    else:
                        try:
                            of = sorted(json.loads(q.read_text()).items())
                        except ValueError:
                            of = [["not made by the tools", ""]]
                        prods.append({"n": q.name, "of": of})
                case["events"].append({"k": "make", "goal": goal, "outcome": "ok" if p.returncode == 0 else "failed " + p.stderr[-160:],
                                       "calls": rec, "after": after, "prods": prods})
        return case
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def run(chk: Check) -> None:
    thorough = tier() == "thorough"
    m = tlc_model("BuildHistory", "BuildHistory2.cfg" if thorough else "BuildHistory.cfg")
    if not m["ok"]:
        raise MachineryError("BuildHistory does not hold\n" + m["out"][-1500:])
    chk.add_states(m)
    if tlc_model("BuildHistory", "BuildForget.cfg")["ok"]:
        raise MachineryError("BuildForget: the negative control passes")
    hs = histories(240 if not thorough else 2400)
    cases = []
    for (st, v), a in zip(pool_map(make_case, list(enumerate(hs)), 200), range(len(hs))):
        if st == "ok":
            if v is not None:
                cases.append(v)
        elif st in ("timeout", "died"):
            chk.violation(f"build-{a}: {st} ({v})", {"what": v}, key=f"{a}-{st}")
        else:
            raise MachineryError(f"case {a}: {v}")
    r = tlc_trace("BuildTrace", cases, cost=lambda c: 2 + len(c["events"]))
    chk.add_states(r)
    by = {c["id"]: c for c in cases}
    for c in cases:
        chk.add_case(json.dumps([c["o"], [[e["k"], e.get("f"), e.get("goal")] for e in c["events"]]]),
                     [c["o"], [[e["k"], e.get("f") or e.get("goal"), [x["out"] for x in e.get("calls", [])]] for e in c["events"]]])
    seen = set()
    for x in r["bad"]:
        if (x["case"], x["clause"]) in seen:
            continue
        seen.add((x["case"], x["clause"]))
        c = by[x["case"]]
        chk.violation(f"{x['case']} event {x['event']}: {x['clause']} {x['arg']}", {"verdict": x, "case": c})
    kinds: dict = {}
    for c in cases:
        for e in c["events"]:
            kk = e["k"] if e["k"] != "make" else "make " + e["goal"]
            kinds[kk] = kinds.get(kk, 0) + 1
    chk.rule = ("BuildTrace: after every make the products of the goal are made of the current files, each by one call of the compiler asked for with the flags "
                "asked for, nothing is made again without a change, and no file of the generation is touched")
    chk.cov = {"events": kinds, "calls_of_the_compiler": sum(len(e.get("calls", [])) for c in cases for e in c["events"])}
