"""C20: the shared library of a network computes batches and hands out its parameters."""
from __future__ import annotations

import random
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

import numpy as np

from acv_cases import any_case, any_options, graph_case, op_case
from acv_core import Check, MachineryError, pool_map, seed, tier, tlc_trace
from acv_probe import generate
from acv_run import CFLAGS, encode
from checks.c07 import conv_variants
from checks.net import judge

DRIVER = r"""
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "test_dataset.h"
#define T %(T)s
static void *lib;
static void *sym(const char *n) { void *p = dlsym(lib, n); if (!p) { printf("no %%s\n", n); exit(4); } return p; }
static const struct { const char *n; size_t len; } par[] = {%(par)s{0, 0}};
static void words(const void *p, size_t bytes) { const int32_t *w = p; for (size_t i = 0; i < bytes / 4; ++i) printf("%%d ", w[i]); }
static void dump(void) {
    printf("dump ");
    for (int i = 0; par[i].n; ++i) words(sym(par[i].n), par[i].len * sizeof(T));
    printf("\n");
}
static void save(void) {
    int (*f)(char *) = sym("save_weights");
    int r = f("params.bin");
    FILE *h = fopen("params.bin", "rb");
    static int32_t buf[1 << 20];
    size_t n = h ? fread(buf, 1, sizeof buf, h) : 0;
    if (h) fclose(h);
    printf("save %%d ", r), words(buf, n);
    if (n %% 4) printf("7 ");
    printf("\n");
    remove("params.bin");
}
static void align(void) {
    printf("align ");
    for (int i = 0; par[i].n; ++i) printf("%%ld ", (long)((uintptr_t)sym(par[i].n) %% %(page)d));
    printf("\n");
}
static T in[%(max)d * nn_input_size], out[(%(max)d + 2) * nn_output_size];
static void batch(int n, const int *pick) {
    void (*f)(T *, T *, int) = sym("batch_loop");
    for (int i = 0; i < n; ++i) memcpy(in + i * nn_input_size, data[pick[i]], sizeof data[0]);
    for (int i = 0; i < (n + 2) * nn_output_size; ++i) out[i] = (T)-77;
    f(out + nn_output_size, in, n);
    int bad = 0;
    for (int j = 0; j < nn_output_size; ++j) bad += out[j] != (T)-77 || out[(n + 1) * nn_output_size + j] != (T)-77;
    printf("batch %%d ", bad);
    for (int i = 0; i < n * nn_output_size; ++i) printf("%%a ", (double)out[nn_output_size + i]);
    printf("\n");
}
%(fresh)s
static void copy(void) {
    void (*f)() = sym("copy_weights");
    f(%(args)s);
    printf("copy\n");
}
int main(void) {
    setvbuf(stdout, 0, _IOLBF, 0);
    lib = dlopen("./net_exe.so", RTLD_NOW);
    if (!lib) { printf("no library %%s\n", dlerror()); return 5; }
%(ops)s
    return 0;
}
"""


def declared(cd: Path) -> list[tuple[str, int]]:
    """The parameters the header declares (the positions of the convolutions are none)."""
    return [(n, int(k)) for t, n, k in re.findall(r"extern\s+const\s+(\w+)\s+(\w+)\[(\d+)\]", (cd / "inference.h").read_text()) if not n.startswith("ppatches_")]


def words(t: str) -> list[int]:
    return [int(x) for x in t.split()]


def hook(i):
    r = random.Random(f"hook-{i}-{seed()}")
    v = op_case("BatchNormalization" if i % 8 == 4 else "Conv", 70_000 + i, seed()) if i % 4 == 0 else None
    if v is None:
        v = any_case(70_000 + i, seed(), "hook") or graph_case(70_000 + i, seed(), tag="hook")
    b, o = v
    case = b.case(f"hook-{i}", o)
    f64 = r.random() < 0.1
    kw = any_options(r, conv_variants())
    kw.pop("external_input", None)
    kw["bin_dataset"] = r.random() < 0.35
    if r.random() < 0.6:
        kw["target_page_size"] = r.choice([64, 128, 1024, 4096])
    k = len(case["samples"])
    d = Path(tempfile.mkdtemp(prefix="acv-hook-", dir="/tmp"))
    ct = "float"
    tr = {"id": case["id"], "params": [], "events": []}
    outs: list = []
    try:
        cd, st, msg = generate(d, b.model(o), case, np.float32, **kw)
        if cd is not None:
            p = subprocess.run(["make", "-s", "net_exe.so", "CFLAGS=" + " ".join([*CFLAGS, "-fPIC", "-fopenmp"])], cwd=cd, capture_output=True, text=True, timeout=60)
            if p.returncode or not (cd / "net_exe.so").exists():
                st, msg = "compile", p.stderr[-300:]
        if st != "ok" or cd is None:
            case["channels"] = [{"name": "batch", "status": st if st != "ok" else "generate", "msg": msg, "lay": "as_is", "out": [[]] * k}]
            return None, case, []
        par = declared(cd)
        sizes = [r.choice([1, 2, 31, 32, 33, 63, 64, 65, 96, 100]) if r.random() < 0.5 else r.randint(1, 70) for _ in range(2)]
        if r.random() < 0.2:
            sizes[0] = 0
        picks = [[r.randrange(k) for _ in range(n)] for n in sizes]
        ops = ["dump", "save", 0, "dump", 1, "save", "align"]
        r.shuffle(ops)
        ops = ["dump", *ops]
        new = [[r.choice([0, 1065353216, -1082130432, 1073741824, 1056964608]) for _ in range(n)] for _, n in par]
        copying = bool(par)
        text = []
        for x in ops:
            text.append(f"    {x}();" if isinstance(x, str) else
                        f"    {{ static const int p[] = {{{', '.join(map(str, picks[x])) or 0}}}; batch({sizes[x]}, p); }}")
        if copying:
            text += ["    copy();", "    dump();", "    save();"]
            ops = [*ops, "copy", "dump", "save"]
        fresh = "".join(f"static int32_t new_{j}[] = {{{', '.join(map(str, w))}}};\n" for j, w in enumerate(new))
        rows = ", ".join("{" + ", ".join(f"{x / case['sc']!r}" for x in s) + "}" for s in case["samples"])
        src = DRIVER % {"T": ct, "par": "".join(f'{{"{n}", {s}}}, ' for n, s in par), "max": max([1, *sizes]), "fresh": fresh, "page": kw.get("target_page_size", 4096),
                        "args": ", ".join(f"new_{j}" for j in range(len(par))), "ops": "\n".join(text)}
        src = src.replace("static void *lib;", f"static T data[{k}][nn_input_size] = {{{rows}}};\nstatic void *lib;")
        (cd / "driver.c").write_text(src)
        p = subprocess.run(["gcc", "-O1", "-w", "-fno-strict-aliasing", "-o", "driver", "driver.c", "-ldl"], cwd=cd, capture_output=True, text=True)
        if p.returncode:
            raise MachineryError("driver: " + p.stderr[-800:])
        p = subprocess.run(["./driver"], cwd=cd, capture_output=True, text=True, timeout=60)
        lines = p.stdout.splitlines()
        for at, x in enumerate(ops):
            l = lines[at] if at < len(lines) else ""
            kind = x if isinstance(x, str) else "batch"
            ok = l.split(" ")[0] == kind
            e = {"k": kind, "status": "ok" if ok else "failed"}
            if kind == "dump":
                e["words"] = words(l[5:]) if ok else []
                if at == 0:
                    pos = 0
                    for _n, s in par:
                        tr["params"].append({"n": _n, "v": e["words"][pos: pos + s]})
                        pos += s
            elif kind == "align":
                e["rest"] = words(l[6:]) if ok else []
            elif kind == "save":
                e["ret"] = int(l.split(" ")[1]) if ok else -1
                e["words"] = words(l.split(" ", 2)[2]) if ok and len(l.split(" ", 2)) > 2 else []
            elif kind == "copy":
                e["new"] = new
            else:
                e["n"] = sizes[x]
                e["beyond"] = int(l.split(" ")[1]) if ok else 0
                vals = encode(l.split(" ", 2)[2] if ok and sizes[x] else "", case["sc"])
                w = len(vals) // sizes[x] if sizes[x] else 0
                e["rows"] = sizes[x] if not sizes[x] or w and len(vals) % sizes[x] == 0 else 0
                outs += [(picks[x][j], vals[j * w: (j + 1) * w]) for j in range(sizes[x] if w else 0)]
            tr["events"].append(e)
            if not ok:
                break
        chans = []
        for name in ("first", "last", "odd"):
            res = []
            for s in range(k):
                rows_ = [v for q, v in outs if q == s]
                if not rows_:
                    res.append(None)
                    continue
                res.append({"first": rows_[0], "last": rows_[-1], "odd": next((v for v in rows_ if v != rows_[0]), rows_[0])}[name])
            chans.append(res)
        have = [s for s in range(k) if chans[0][s] is not None]
        if not have:
            return tr, None, par
        case["samples"] = [case["samples"][s] for s in have]
        case["channels"] = [{"name": nm, "status": "ok", "msg": "", "lay": "as_is", "out": [c[s] for s in have]} for nm, c in zip(("first", "last", "odd"), chans)]
        return tr, case, par
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("histories of calls of the hooks of the shared libraries of random networks: batches of 0 to 100 samples, parameters saved and replaced; "
                "non-trivial: outputs not constant")
    n = 260 if quick else 2500
    cases, traces = [], []
    for a, (st, v) in zip(range(n), pool_map(hook, list(range(n)), 120)):
        if st == "error":
            raise MachineryError(f"hook-{a}: {v}")
        if st != "ok":
            chk.violation(f"hook-{a}: {st} {v}", {"case": a})
            continue
        if v[0]:
            traces.append(v[0])
            chk.cov["parameters"] = chk.cov.get("parameters", 0) + len(v[2])
            chk.cov.setdefault("kinds", set()).update(x.split("_")[0] for x, _ in v[2])
        if v[1]:
            cases.append(v[1])
    chk.cov["kinds"] = sorted(chk.cov.get("kinds", []))
    judge(chk, cases)
    r = tlc_trace("HookTrace", traces, cost=lambda t: 5 + sum(len(e.get("words", [])) for e in t["events"]))
    chk.add_states(r)
    chk.traces += len(traces)
    by = {t["id"]: t for t in traces}
    for b in r["bad"]:
        chk.violation(f"{b['case']} event {b['event']} {b['kind']}: {b['clause']}", {"verdict": b, "trace": by[b["case"]]}, key=f"{b['kind']}:{b['clause']}")
