"""C18: the command line generates what the library does with the settings it spells."""
from __future__ import annotations

import contextlib
import hashlib
import io
import json
import logging
import os
import random
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np
import onnx

from acv_cases import any_case, graph_case, op_case
from acv_core import Check, MachineryError, pool_map, seed, tier, tlc_model, tlc_trace
from acv_nets import Reject
from checks.c07 import conv_variants

TEXT = ["--model", "--function", "--output", "--dataset-size", "--dataset", "--conv", "--target", "--target_page_size"]
BOOL = ["--optimization", "--bin_dataset", "--verbose"]
DEFAULT = {"--model": "", "--function": "", "--output": "", "--dataset-size": "", "--dataset": "", "--conv": "std_gemm_nn", "--target": "generic",
           "--target_page_size": "4096", "--optimization": "False", "--bin_dataset": "False", "--verbose": "False", "--normalize": "False"}
SHORT = {"--model": ["--m", "--mod"], "--function": ["--f", "--func"], "--output": ["--out", "--ou"], "--dataset-size": ["--dataset-", "--dataset-s"],
         "--conv": ["--c"], "--target_page_size": ["--target_", "--target_page"], "--optimization": ["--op", "--optim"], "--bin_dataset": ["--b", "--bin"],
         "--verbose": ["--v", "--verb"], "--normalize": ["--n", "--norm"], "--dataset": [], "--target": []}
YES, NO = ["True", "true", "1", "yes", "on", "TRUE"], ["False", "false", "0", "no", "off", "FALSE"]


def models(r: random.Random, i: int, d: Path) -> tuple[list[str], list[list]]:
    """Two model files, and a dataset for each."""
    from checks.c12 import json_case, nnet_case
    from checks.c17 import Q
    names, data = [], []
    kinds = [r.choice(["onnx", "onnx", "conv", "nnet", "nnet", "json", "quant"]), "onnx"]
    for k, kind in enumerate(kinds):
        if kind in ("nnet", "json"):
            v = (nnet_case if kind == "nnet" else json_case)(50_000 + 2 * i + k)
            if v is None:
                kind = "onnx"
            else:
                b, text = v[0], v[2]
                p = d / f"model{k}.{kind}"
                p.write_text(text)
        if kind == "quant":
            for _ in range(200):
                try:
                    q = Q(r)
                    o = q.build()
                    break
                except Reject:
                    continue
            p = d / f"model{k}.onnx"
            onnx.save(q.model(o), str(p))
            (d / "AVX512VNNI.json").write_text(json.dumps(q.target()))
            case = q.case("q", o)
            names.append(p.name)
            data.append(case["samples"])
            continue
        if kind in ("onnx", "conv"):
            for t in range(50):
                v = op_case("Conv", 60_000 + 97 * i + t, seed()) if kind == "conv" else graph_case(60_000 + 97 * i + t, seed(), nmin=2, nmax=7, tag="cli")
                if v is not None:
                    break
            b, o = v
            p = d / f"model{k}.onnx"
            onnx.save(b.model(o), str(p))
        names.append(p.name)
        data.append([[x / b.sc for x in s] for s in b.samples])
    return names, data


def digest(d: Path) -> tuple[str, int]:
    h = hashlib.md5()
    fs = sorted(p for p in d.rglob("*") if p.is_file()) if d.exists() else []
    for p in fs:
        h.update(p.relative_to(d).as_posix().encode() + b"\0" + hashlib.md5(p.read_bytes()).digest())
    return h.hexdigest()[:12], len(fs)


@contextlib.contextmanager
def silence():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
        yield


def library(s: dict, out: Path) -> str:
    from acetone_nnet import CodeGenerator
    try:
        with silence():
            out.mkdir(parents=True)
            g = CodeGenerator(file=Path(s["--model"]), function_name=s["--function"], nb_tests=int(s["--dataset-size"]),
                              test_dataset=Path(s["--dataset"]) if s["--dataset"] else None, target=s["--target"],
                              target_page_size=int(s["--target_page_size"]), versions={"Conv2D": s["--conv"]},
                              normalize=s["--normalize"] == "True", optimization=s["--optimization"] == "True",
                              bin_dataset=s["--bin_dataset"] == "True", verbose=s["--verbose"] == "True")
            g.generate_c_files(str(out))
            g.compute_inference(str(out))
    except Exception:  # noqa: BLE001
        return "failed"
    return digest(out)[0]


def command(words: list[str]) -> str:
    import acetone_nnet.cli.generate as M
    old = sys.argv
    sys.argv = ["acetone_generate", *words]
    try:
        with silence():
            M.acetone_generate()
    except SystemExit as e:
        return "failed" if e.code else "exit 0"
    except Exception:  # noqa: BLE001
        return "failed"
    finally:
        sys.argv = old
        logging.getLogger().handlers.clear()
    return "ok"


def spell(r: random.Random, s: dict) -> list[str]:
    """Words which mean the settings."""
    items = []
    for o in TEXT + BOOL:
        must = o in ("--model", "--function", "--output", "--dataset-size")
        if s[o] == DEFAULT[o] and not must and (o == "--dataset" or r.random() < 0.6):
            continue
        v = r.choice(YES if s[o] == "True" else NO) if o in BOOL else s[o]
        n = r.choice([o, o, o, *SHORT[o]])
        items.append([f"{n}={v}"] if r.random() < 0.3 else [n, v])
        if r.random() < 0.08:   # the same option before, which does not count
            w = {"nat": "77"}.get("nat" if o in ("--dataset-size", "--target_page_size") else "", r.choice(YES + NO) if o in BOOL else "other")
            items[-1] = r.choice([[o, w], [f"{o}={w}"]]) + items[-1]
    if s["--normalize"] == "True":
        items.append([r.choice(["--normalize", "--normalize", "--norm"])])
    r.shuffle(items)
    return [w for x in items for w in x]


def spoil(r: random.Random, words: list[str]) -> list[str]:
    """A command line which means nothing."""
    w = list(words)
    how = r.randrange(7)
    if how == 0:
        w.insert(r.choice([0, len(w)]), r.choice(["stray", "model.onnx"]))
    elif how == 1:
        w += [r.choice(["--unknown", "-x", "--no-normalize", "--convolution=1", "--hex"])]
    elif how == 2:
        w += r.choice([["--data", "x"], ["--targ", "generic"], ["--dat=1"], ["--t", "x"]])
    elif how == 3:
        w += [r.choice(["--conv", "--dataset-size", "--bin_dataset", "--target", "--verbose", "--optimization"])]
    elif how == 4:
        w += r.choice([["--dataset-size", "many"], ["--target_page_size=4k"], ["--dataset-size", "1.5"], ["--target_page_size", "0x10"]])
    elif how == 5:
        w += r.choice([["--bin_dataset", "maybe"], ["--verbose=2"], ["--optimization", "all"], ["--normalize=True"], ["--normalize", "True"]])
    else:
        w = []
        skip = r.choice(["--model", "--function", "--output", "--dataset-size"])
        it = iter(words)
        for x in it:
            n = x.split("=")[0]
            if n == skip or n in SHORT[skip]:
                if "=" not in x:
                    next(it)
                continue
            w.append(x)
    return w


def run_case(i: int):
    r = random.Random(f"cli-{i}-{seed()}")
    d = Path(tempfile.mkdtemp(prefix="acv-cli-", dir="/tmp"))
    cwd = os.getcwd()
    try:
        os.chdir(d)
        names, data = models(r, i, d)
        for k, rows in enumerate(data):
            (d / f"data{k}.txt").write_text("".join(json.dumps(x) + "\n" for x in rows))
        m = r.choice([0, 0, 0, 1])
        quant = (d / "AVX512VNNI.json").exists() and m == 0
        nnet = names[m].endswith(".nnet")
        s = dict(DEFAULT)
        s["--model"] = r.choice([names[m], names[m], str(d / names[m])])
        s["--function"] = r.choice(["net", "lenet5", "f_1", "inference2"])
        s["--output"] = r.choice(["out", "a/b/out", str(d / "out")])
        s["--dataset-size"] = str(r.randint(1, len(data[m])))
        if quant or r.random() < 0.7:
            s["--dataset"] = f"data{m}.txt"
        if r.random() < 0.5:
            s["--conv"] = r.choice([*conv_variants(), *conv_variants(), "no_such_variant"])
        if quant and r.random() < 0.8:
            s["--target"] = "AVX512VNNI"
        if r.random() < 0.4:
            s["--target_page_size"] = str(r.choice([16, 64, 1024, 4096]))
        for o in BOOL:
            if r.random() < 0.4:
                s[o] = "True"
        if nnet and r.random() < 0.6:
            s["--normalize"] = "True"
        words = spell(r, s)
        kind = "means"
        if r.random() < 0.2:
            words, kind = spoil(r, words), "spoilt"
        lib = []
        if kind == "means":
            lib.append({"settings": s, "outcome": library(s, d / "lib")})
            for k in range(2):      # and with one other setting
                t = dict(s)
                o = r.choice(["--function", "--dataset-size", "--dataset", "--conv", "--target_page_size", *BOOL, *(["--normalize"] if nnet else [])])
                t[o] = {"--function": "other", "--dataset-size": str(max(1, int(s[o] or 1) - 1) if o == "--dataset-size" else 1),
                        "--dataset": "" if s["--dataset"] else f"data{m}.txt", "--conv": "6loops" if s["--conv"] != "6loops" else "std_gemm_nn",
                        "--target_page_size": "32"}.get(o, "False" if s[o] == "True" else "True")
                lib.append({"settings": t, "outcome": library(t, d / f"lib{k}")})
        st = command(words)
        dg, nf = digest(Path(s["--output"]))
        if st == "ok":
            st = dg
        return {"id": f"cli-{i}-{kind}", "words": words, "lib": lib, "cli": {"outcome": st, "files": nf}}, names[m].rsplit(".", 1)[1]
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("command lines: options in any order, shortened, repeated, with = or not, and ones which mean nothing; the run of the command against "
                "the library with the settings the specification reads; non-trivial: an option beyond the required ones")
    m = tlc_model("Cli", "Cli.cfg" if quick else "Cli5.cfg")
    if not m["ok"]:
        raise MachineryError("Cli: the design doesn't hold\n" + m["out"][-1500:])
    chk.add_states(m)
    if tlc_model("Cli", "CliGiven.cfg")["ok"]:
        raise MachineryError("CliGiven: the negative control passes")
    n = 420 if quick else 5000
    cases, apart = [], 0
    for a, (st, v) in zip(range(n), pool_map(run_case, list(range(n)), 120)):
        if st == "error":
            raise MachineryError(f"cli-{a}: {v}")
        if st != "ok":
            chk.violation(f"cli-{a}: {st} {v}", {"case": a})
            continue
        c, kind = v
        cases.append(c)
        chk.cov.setdefault("models", {}).setdefault(kind, 0)
        chk.cov["models"][kind] += 1
        apart += sum(e["outcome"] != c["lib"][0]["outcome"] for e in c["lib"][1:])
        chk.add_case(" ".join(c["words"]), c["words"] if len(c["words"]) > 6 else None)
    chk.cov["refused"] = sum(c["cli"]["outcome"] == "failed" for c in cases)
    chk.cov["other_settings_told_apart"] = f"{apart} of {sum(max(0, len(c['lib']) - 1) for c in cases)}"
    r = tlc_trace("CliTrace", cases, cost=lambda c: 3 + len(c["words"]))
    chk.add_states(r)
    chk.traces += len(cases)
    by = {c["id"]: c for c in cases}
    for b in r["bad"]:
        if b["clause"] == "no reference":
            raise MachineryError(f"{b['case']}: no library run with {b['want']}; words {by[b['case']]['words']}")
        chk.violation(f"{b['case']}: {b['clause']} {b['got']} want {b['want']} words {' '.join(by[b['case']]['words'])}", {"verdict": b, "case": by[b["case"]]})
