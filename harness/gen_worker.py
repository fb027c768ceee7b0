"""Replay histories of generations in this process (its own hash seed): gen_worker.py IN.json OUT.json"""
from __future__ import annotations

import contextlib
import hashlib
import io
import json
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

import numpy as np
import onnx

sys.path.insert(0, str(Path(__file__).parent))
from acv_run import load_acetone  # noqa: E402

NOTE = "written by the user's function\n"
MAKE = "all:\n\t@true\n"


def dg(b: bytes) -> str:
    return hashlib.md5(b).hexdigest()[:10]


def listing(d: Path) -> list[dict]:
    return [{"n": p.name, "d": dg(p.read_bytes()) if p.is_file() else "directory"} for p in sorted(d.iterdir())] if d.exists() else []


def arrays(r) -> bytes:
    if isinstance(r, (list, tuple)):
        return b"[" + b",".join(arrays(x) for x in r) + b"]"
    if isinstance(r, np.ndarray):
        return str(r.shape).encode() + str(r.dtype).encode() + r.tobytes()
    return repr(r).encode()


def write(name: str, text: str):
    def f(gen, path) -> None:
        (Path(path) / name).write_text(text)
    return f


def options(kw: dict, custom: str) -> dict:
    kw = json.loads(json.dumps(kw))
    for k in list(kw.get("versions") or {}):
        if k.isdigit():
            kw["versions"][int(k)] = kw["versions"].pop(k)
    if custom == "extra":
        kw["custom_generation_functions"] = {"Notes": [("notes.txt", write("notes.txt", NOTE))]}
    elif custom == "nomain":
        kw["custom_generation_functions"] = {"Main": []}
    elif custom == "makefile":
        kw["custom_generation_functions"] = {"Makefile": [("Makefile", write("Makefile", MAKE))]}
    return kw


class Replay:
    def __init__(self, group: dict) -> None:
        self.g = group
        self.models = [onnx.load(m) for m in group["models"]]
        self.data = [np.array(x, np.float32) for x in group["data"]]
        self.kw = [options(c["kw"], c["custom"]) for c in group["cfgs"]]

    def caller(self) -> str:
        """The objects the caller gave, as they are now."""
        b = b"".join(m.SerializeToString(deterministic=True) for m in self.models) + b"".join(arrays(a) for a in self.data)
        kw = [{k: v if k != "custom_generation_functions" else {x: [(n, f.__name__) for n, f in y] for x, y in v.items()}
               for k, v in o.items()} for o in self.kw]
        return dg(b + json.dumps(kw, sort_keys=True, default=str).encode())

    def run(self, A, hist: list) -> list:
        top = Path(tempfile.mkdtemp(prefix="acv-gen-", dir="/tmp"))
        slots, out = {}, []
        try:
            for e in hist:
                e = dict(e)
                d = top / f"d{e.get('dir', 0)}"
                e["outcome"] = "ok"
                try:
                    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                        self.one(A, e, d, slots)
                except Exception as x:  # noqa: BLE001
                    e["outcome"] = type(x).__name__
                    e["msg"] = str(x)[:200]
                if "dir" in e:
                    e["after"] = listing(d)
                e["caller"] = self.caller()
                out.append(e)
        finally:
            shutil.rmtree(top, ignore_errors=True)
        return out

    def one(self, A, e, d, slots) -> None:
        if e["k"] == "new":
            c = self.g["cfgs"][e["cfg"] - 1]
            slots[e["slot"]] = None
            slots[e["slot"]] = A.CodeGenerator(file=self.g["models"][c["model"]] if c["path"] else self.models[c["model"]],
                                               function_name="net_exe", nb_tests=len(self.data[c["model"]]),
                                               test_dataset=None if c["kw"].get("external_input") or c["random"] else self.data[c["model"]],
                                               **self.kw[e["cfg"] - 1])
        elif e["k"] == "gen":
            slots[e["slot"]].generate_c_files(d if len(str(d)) % 2 else str(d))
        elif e["k"] == "infer":
            d.mkdir(exist_ok=True)
            e["ret"] = ""
            g = slots[e["slot"]]
            x = self.data[self.cfg_of(e)]
            if not g.read_ext_input:
                e["ret"] = dg(arrays(g.compute_inference(str(d))))
            else:
                if e["data"]:
                    x = np.concatenate([x[:1] * 2, x, x[:1] + 1])[: 1 if e["dir"] == 2 else 4]
                    e["data"] += 2 * (e["dir"] == 2)
                if e["data"] in (2, 4):
                    f = d.parent / "given.txt"
                    f.write_text("\n".join(json.dumps([float(v).hex() if g.to_hex else float(v) for v in s.flatten()]) for s in x) + "\n")
                    x = f if e["slot"] == 1 else str(f)
                e["ret"] = dg(arrays(g.compute_inference(str(d), x)))
        elif e["k"] == "put":
            d.mkdir(exist_ok=True)
            form = e.get("form", "text")
            if form == "directory":
                (d / e["name"]).mkdir()
            else:
                (d / e["name"]).write_text("" if form == "empty" else "of the user: " + e["name"])
        elif e["k"] == "del":
            p = d / e["name"]
            p.rmdir() if p.is_dir() else p.unlink()
        elif e["k"] == "clear":
            shutil.rmtree(d)
            d.mkdir()
        elif e["k"] == "build":
            e["ret"] = ""
            with tempfile.TemporaryDirectory(prefix="acv-mk-", dir="/tmp") as t:
                w = Path(t) / "w"
                shutil.copytree(d, w)
                p = subprocess.run(["make", "-s", "all"], cwd=w, capture_output=True, text=True, timeout=120)
                if p.returncode:
                    raise RuntimeError("make: " + p.stderr[-150:])
                p = subprocess.run(["./net_exe", "out.txt"], cwd=w, capture_output=True, text=True, timeout=60)
                if p.returncode:
                    raise RuntimeError(f"run: {p.returncode}")
                e["ret"] = dg((w / "out.txt").read_bytes())

    def cfg_of(self, e) -> int:
        return self.g["cfgs"][e["cfg_now"] - 1]["model"]


def main() -> None:
    A = load_acetone()
    doc = json.loads(Path(sys.argv[1]).read_text())
    res = []
    for job in doc["jobs"]:
        g = doc["groups"][job["group"]]
        rp = Replay(g)
        first = rp.caller()
        cur, hist = {}, []
        for e in job["hist"]:
            e = dict(e)
            if e["k"] == "new":
                cur[e["slot"]] = e["cfg"]
            if e["k"] == "infer":
                e["cfg_now"] = cur[e["slot"]]
            hist.append(e)
        res.append({"group": job["group"], "caller": first, "events": rp.run(A, hist)})
    Path(sys.argv[2]).write_text(json.dumps(res))


if __name__ == "__main__":
    main()
