"""Run the real tool chain (import, generate, compile, execute, Python reference) on a model."""
from __future__ import annotations

import contextlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import traceback
import zlib
from pathlib import Path

import numpy as np

BIG = 1073741823


def load_acetone():
    from acv_core import REPO
    sys.path.insert(0, str(REPO / "src"))
    import warnings
    warnings.filterwarnings("ignore")
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        import acetone_nnet
    if not acetone_nnet.__file__.startswith(str(REPO / "src")):
        raise RuntimeError("acetone_nnet is not the repository's")
    return acetone_nnet


def encode(line: str, sc: int) -> list[int]:
    out = []
    for w in line.split():
        try:
            v = float.fromhex(w) if ("0x" in w or "p" in w) else float(w)
        except ValueError:
            out.append(BIG)
            continue
        out.append(enc(v, sc))
    return out


def enc(v: float, sc: int) -> int:
    if not np.isfinite(v):
        return BIG
    q = int(round(float(v) * sc * 16))
    return q if abs(q) < BIG - 1 else BIG


def read_lines(p: Path, sc: int, n: int) -> list[list[int]]:
    ls = [l for l in p.read_text().splitlines() if l.strip()][:64]
    r = [encode(l, sc)[:4096] for l in ls]
    return r + [[] for _ in range(max(0, n - len(r)))]


def dataset_of(case: dict, dtype) -> np.ndarray:
    return np.array([[v / case["sc"] for v in s] for s in case["samples"]], dtype=dtype)


CFLAGS = ["-g0", "-O1", "-w", "-fno-strict-aliasing"]


def compile_run(d: Path, exe: str = "net_exe", cc_extra: list[str] | None = None, timeout=60,
                run_env: dict | None = None) -> tuple[str, str]:
    """Compile the generated directory as its Makefile lists it; run it into output_c.txt."""
    if (d / "parameters.dat").exists():  # the binary parameters only exist for the Makefile
        p = subprocess.run(["make", "-s", exe, "CFLAGS=" + " ".join([*CFLAGS, *(cc_extra or [])])], cwd=d, capture_output=True,
                           text=True, timeout=timeout)
        return ("compile", p.stderr[-800:]) if p.returncode else execute(d, exe, timeout, run_env)
    srcs = sorted(str(p.name) for p in d.glob("*.c"))
    p = subprocess.run(["gcc", *CFLAGS, *(cc_extra or []), "-o", exe, *srcs, "-lm"], cwd=d,
                       capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        return "compile", p.stderr[-800:]
    return execute(d, exe, timeout, run_env)


def execute(d: Path, exe: str, timeout=60, run_env: dict | None = None) -> tuple[str, str]:
    env = dict(os.environ)
    env.update(run_env or {})
    p = subprocess.run([f"./{exe}", "output_c.txt"], cwd=d, capture_output=True, text=True, timeout=timeout, env=env)
    if p.returncode:
        return "run", (p.stderr or f"rc={p.returncode}")[-800:]
    return "ok", p.stdout


def words(f: Path) -> list[list[str]]:
    return [w for w in (x.split() for x in f.read_text().splitlines()) if w]


def shown(out: str, text: str) -> bool:
    """Whether a program's report ends with these values."""
    o, t = out.split(), text.split()
    return not t or o[-len(t):] == t


def same_values(values, text: list[str]) -> bool:
    """Whether these numbers are those of the text."""
    v = [float(x) for x in np.asarray(values).flatten()]
    t = [float.fromhex(x) if "x" in x else float(x.replace("INFINITY", "inf")) for x in text]
    return len(v) == len(t) and all(a == b or (a != a and b != b) for a, b in zip(v, t))


def full_run(model, case: dict, *, dtype=np.float32, channels=("python", "c"), cc_extra=None,
             keep: Path | None = None, **gen_kw) -> list[dict]:
    """Channels of one tool-chain run on `model` with the case's samples."""
    import acetone_nnet as A
    d = Path(tempfile.mkdtemp(prefix="acv-run-", dir="/tmp"))
    n = len(case["samples"])
    res = {}
    gen_kw.setdefault("verbose", zlib.crc32(case["id"].encode()) % 3 == 0)
    try:
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                g = A.CodeGenerator(file=model, function_name="net_exe", nb_tests=n,
                                    test_dataset=dataset_of(case, dtype), **gen_kw)
        except Exception as e:  # noqa: BLE001
            return [{"name": c, "status": "import", "msg": f"{type(e).__name__}: {e}"[:500],
                     "tb": traceback.format_exc()[-700:], "lay": "as_is", "out": [[]] * n} for c in channels]
        if "python" in channels:
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
                        np.errstate(all="ignore"):
                    ret = g.compute_inference(str(d))
                res["python"] = ("ok", "", read_lines(d / "output_python.txt", case["sc"], n))
                if not gen_kw.get("debug_mode") and not same_values(ret, words(d / "output_python.txt")[-1]):
                    res["python"] = ("python", f"compute_inference returns {ret}, not the last values it wrote", [[]] * n)
            except Exception as e:  # noqa: BLE001
                res["python"] = ("python", f"{type(e).__name__}: {e} {traceback.format_exc()[-500:]}", [[]] * n)
        if "c" in channels:
            try:
                cd = d / "c"
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    g.generate_c_files(str(cd))
                st, msg = compile_run(cd, cc_extra=cc_extra)
                res["c"] = (st, msg, read_lines(cd / "output_c.txt", case["sc"], n) if st == "ok" else [[]] * n)
                if st == "ok" and gen_kw["verbose"] and not shown(msg, (cd / "output_c.txt").read_text()):
                    res["c"] = ("run", "the program does not show the values it writes: " + msg, [[]] * n)
            except Exception as e:  # noqa: BLE001
                res["c"] = ("generate", f"{type(e).__name__}: {e} {traceback.format_exc()[-500:]}", [[]] * n)
        if keep:
            shutil.copytree(d, keep, dirs_exist_ok=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return [{"name": c, "status": res[c][0], "msg": res[c][1][-600:], "lay": "as_is", "out": res[c][2]}
            for c in channels]
