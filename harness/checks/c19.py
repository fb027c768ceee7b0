"""C19: the comparison tool finds every difference between two result files."""
from __future__ import annotations

import contextlib
import io
import math
import os
import random
import re
import shutil
import sys
import tempfile
from pathlib import Path

from acv_core import Check, MachineryError, pool_map, seed, tier, tlc_model, tlc_trace

UNITS = [0.125, 0.125, 1.0, 1.0, 2.0**-20, 2.0**118, 2.0**-140, 1e-5, 1e-3, 1e5]
CLOSE = [0.125, 1.0, 2.0**-20, 2.0**-140, 2.0**-60, 2.0**90]


def c_hex(v: float) -> str:
    """The way C prints a value with %a."""
    if v == 0:
        return "-0x0p+0" if math.copysign(1, v) < 0 else "0x0p+0"
    m, e = v.hex().split("p")
    m = re.sub(r"\.?0+$", "", m) if "." in m else m
    return f"{m}p{e}"


def token(r: random.Random, x: dict, unit: float, style: str) -> str:
    if x["k"] == "bad":
        return r.choice(["abc", "0xzz", "1.5.2", "--1", "[1]", "1,2", "0x"])
    if x["k"] != "fin":
        s = {"inf": "inf", "-inf": "-inf", "nan": "nan"}[x["k"]]
        return r.choice([s, s, "-nan" if s == "nan" else s])
    v = x["n"] * unit
    if v == 0 and r.random() < 0.3:
        v = -0.0
    if style == "mixed":
        style = r.choice(["a", "hex", "g", "repr"])
    if style == "d" and v == int(v):
        return str(int(v))
    if style == "g" and float("%g" % v) == v:
        return "%9g" % v
    if style == "e" and float("%.6e" % v) == v:
        return "%.6e" % v
    if style == "a":
        return c_hex(v)
    if style == "hex":
        return v.hex()
    return repr(v)


def text(r: random.Random, rows: list, unit: float, style: str) -> str:
    tail = r.random() < 0.7
    sep = r.choice([" ", " ", "  "])
    lines = [sep.join(token(r, x, unit, style) for x in l) + (" " if tail else "") for l in rows]
    return "\n".join(lines) + ("\n" if r.random() < 0.8 and lines else "")


def fin(n: int) -> dict:
    return {"k": "fin", "n": n}


def scenario(i: int):
    r = random.Random(f"cmp-{i}-{seed()}")
    unit = r.choice(UNITS)
    rows, cols = r.randint(1, 6), r.randint(1, 6)
    if r.random() < 0.1:
        rows = r.randint(7, 40)
    lim = r.choice([3, 40, 255])
    f1 = [[fin(r.randint(-lim, lim)) for _ in range(cols)] for _ in range(rows)]
    f2 = [list(l) for l in f1]
    n = rows if r.random() < 0.6 else r.randint(0, rows)
    kind = r.choice(["same", "close", "close", "last", "first", "after", "some", "some", "some", "short1", "short2", "narrow1", "narrow2", "wide", "special",
                     "special", "special", "bad", "ragged", "sign"])

    def other(x):
        while True:
            y = fin(r.choice([r.randint(-lim, lim), x["n"] + r.choice([-1, 1]) if abs(x["n"]) < lim else 0]))
            if y != x:
                return y

    def poke(row, col=None):
        col = r.randrange(cols) if col is None else col
        f2[row][col] = other(f2[row][col]) if f2[row][col]["k"] == "fin" else fin(0)
    if kind == "close":          # neighbours among the numbers of a float
        unit = r.choice(CLOSE)
        big = 2**23 + 2**22
        f1 = [[fin(r.choice([1, -1]) * r.randint(2**20, big)) for _ in range(cols)] for _ in range(rows)]
        f2 = [list(l) for l in f1]
        for _ in range(r.randint(1, 2)):
            row, col = r.randrange(rows), r.randrange(cols)
            f2[row][col] = fin(f1[row][col]["n"] + r.choice([-1, 1]) * r.choice([1, 1, 2, 8]))
    elif kind == "last":
        poke(max(n, 1) - 1, cols - 1)
    elif kind == "first":
        poke(0, 0)
    elif kind == "after":         # only after the last inference to compare
        n = min(n, rows - 1)
        poke(n)
    elif kind in ("some", "special", "bad"):
        for _ in range(r.randint(1, 4)):
            poke(r.randrange(rows))
    elif kind == "sign":
        for l in f2:
            for j, x in enumerate(l):
                l[j] = fin(-x["n"])
    elif kind in ("short1", "short2"):
        f = f1 if kind == "short1" else f2
        del f[r.randint(0, rows - 1):]
        if r.random() < 0.4:
            n = rows + r.randint(1, 3)
    elif kind in ("narrow1", "narrow2", "wide"):
        f = f1 if kind == "narrow1" else f2
        at = r.randrange(rows)
        if kind == "wide":
            f[at] = f[at] + [fin(r.randint(-lim, lim))]
        else:
            f[at] = f[at][:-1]
    elif kind == "ragged":
        w = [r.randint(1, cols) for _ in range(rows)]
        f1 = [l[:k] for l, k in zip(f1, w)]
        f2 = [l[:k] for l, k in zip(f2, w)]
        if any(w) and r.random() < 0.5:
            at = r.choice([j for j, k in enumerate(w) if k])
            f2[at][r.randrange(w[at])] = fin(0)
    if kind == "special":
        for _ in range(r.randint(1, 3)):
            row, col = r.randrange(rows), r.randrange(cols)
            s = {"k": r.choice(["inf", "-inf", "nan"]), "n": 0}
            t = r.choice([1, 2, 3])
            if t & 1:
                f1[row][col] = s
            if t & 2:
                f2[row][col] = s if r.random() < 0.7 else {"k": r.choice(["inf", "-inf"]), "n": 0}
    if kind == "bad":
        r.choice([f1, f2])[r.randrange(rows)][r.randrange(cols)] = {"k": "bad", "n": 0}
    st = r.choice([("a", "hex"), ("a", "a"), ("hex", "hex"), ("g", "g"), ("repr", "a"), ("d", "d"), ("d", "repr"), ("e", "e"), ("mixed", "mixed")])
    if unit in (1e-5, 1e-3, 1e5) and st[0] not in ("d", "g", "e") and r.random() < 0.6:
        st = ("repr", "g")
    return {"id": f"cmp-{i}-{kind}", "f1": f1, "f2": f2, "n": n}, text(r, f1, unit, st[0]), text(r, f2, unit, st[1]), unit, st


def number(v: float, scale: float) -> dict:
    v = float(v)
    if v != v:
        return {"k": "nan", "n": 0}
    if math.isinf(v) or abs(v * scale) > 2**31 - 1:
        return {"k": "inf" if v > 0 else "-inf", "n": 0}
    return {"k": "fin", "n": round(v * scale)}


PRINTED = re.compile(r"Max (absolute|relative) error for (-?\d+) test\(s\): (\S+)")


def compare(i: int):
    import acetone_nnet.cli.compare as M
    from acetone_nnet import cli_compare
    case, t1, t2, unit, st = scenario(i)
    r = random.Random(f"cmp-run-{i}-{seed()}")
    d = Path(tempfile.mkdtemp(prefix="acv-cmp-", dir="/tmp"))
    (d / "one.txt").write_text(t1)
    (d / "two.txt").write_text(t2)
    prec = r.choice(["float", "double"])
    how = []

    def put(name, outcome, verdict="none", a=0.0, q=0.0):
        how.append({"name": name, "outcome": outcome, "verdict": verdict, "abs": number(a, 1024 / unit), "rel": number(q, 65536)})

    def printed(name, out):
        g = {m[0]: (int(m[1]), float(m[2])) for m in PRINTED.findall(out)}
        if set(g) != {"absolute", "relative"} or any(x[0] != case["n"] for x in g.values()):
            return put(name, f"printed {out[:80]!r}")
        put(name, "done", "none", g["absolute"][1], g["relative"][1])
    old = sys.argv
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                same, a, q = M.compare_files(str(d / "one.txt"), str(d / "two.txt"), case["n"], prec)
                put("compare_files", "done", "same" if same else "differs", a, q)
            except Exception:  # noqa: BLE001
                put("compare_files", "refused")
            out = io.StringIO()
            try:
                with contextlib.redirect_stdout(out):
                    cli_compare(d / "one.txt", d / "two.txt", case["n"], *r.choice([(), (prec,)]))
                printed("cli_compare", out.getvalue())
            except Exception:  # noqa: BLE001
                put("cli_compare", "refused")
            out = io.StringIO()
            opt = r.choice([[], ["--precision", prec], [f"--precision={prec}"]])
            sys.argv = ["acetone_compare", *r.choice([[*opt, str(d / "one.txt"), str(d / "two.txt"), str(case["n"])],
                                                      [str(d / "one.txt"), str(d / "two.txt"), str(case["n"]), *opt]])]
            try:
                with contextlib.redirect_stdout(out):
                    M.acetone_compare()
                printed("acetone_compare", out.getvalue())
            except SystemExit as e:
                put("acetone_compare", "refused" if e.code else "exit 0")
            except Exception:  # noqa: BLE001
                put("acetone_compare", "refused")
    finally:
        sys.argv = old
        shutil.rmtree(d, ignore_errors=True)
    return {**case, "how": how}, {"one": t1[:600], "two": t2[:600], "unit": unit, "precision": prec}, st


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("pairs of result files: equal, different at one place or many, of other lengths and widths, with infinities and not-a-numbers, in every "
                "notation the programs write; the three ways to call the tool; non-trivial: pairs which differ in what is compared")
    for cfg in ("Compare.cfg", "Compare2.cfg"):
        m = tlc_model("Compare", cfg)
        if not m["ok"]:
            raise MachineryError(f"{cfg}: the design doesn't hold\n" + m["out"][-1500:])
        chk.add_states(m)
    if tlc_model("Compare", "ComparePrefix.cfg")["ok"]:
        raise MachineryError("ComparePrefix: the negative control passes")
    cases, texts = [], {}
    n = 1500 if quick else 30000
    os.chdir("/tmp")
    for a, (st, v) in zip(range(n), pool_map(compare, list(range(n)), 60)):
        if st == "error":
            raise MachineryError(f"cmp-{a}: {v}")
        if st != "ok":
            chk.violation(f"cmp-{a}: {st} {v}", {"case": a})
            continue
        cases.append(v[0])
        texts[v[0]["id"]] = v[1]
        chk.cov.setdefault("notations", set()).add("/".join(v[2]))
        chk.cov.setdefault("kinds", set()).add(v[0]["id"].split("-", 2)[2])
        chk.add_case(str([v[0]["f1"], v[0]["f2"], v[0]["n"]]), v[1] if v[0]["f1"] != v[0]["f2"] else None)
    for k in ("notations", "kinds"):
        chk.cov[k] = sorted(chk.cov[k])
    r = tlc_trace("CompareTrace", cases, cost=lambda c: 3 + 6 * len(c["f1"]))
    chk.add_states(r)
    chk.traces += len(cases)
    chk.evaluations += sum(len(c["how"]) for c in cases)
    by = {c["id"]: c for c in cases}
    for b in r["bad"]:
        chk.violation(f"{b['case']} {b['how']}: {b['clause']} {b['got']}", {"verdict": b, "files": texts[b["case"]], "case": by[b["case"]]},
                      key=f"{b['case'].split('-', 2)[2]}:{b['clause']}")
