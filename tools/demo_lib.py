"""Helper of the demonstrations: run acetone from ./src on a model, return C and Python outputs."""
import contextlib, io, os, shutil, subprocess, sys, tempfile, warnings
from pathlib import Path
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
sys.dont_write_bytecode = True
sys.path.insert(0, str(Path.cwd() / "src"))
warnings.filterwarnings("ignore")
import numpy as np
with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
    import acetone_nnet
    from acetone_nnet import CodeGenerator
from onnx import TensorProto, helper, numpy_helper


def model(nodes, ishape, oshape, inits=(), opset=18, name="m", it=TensorProto.FLOAT):
    g = helper.make_graph(list(nodes), name, [helper.make_tensor_value_info("x", it, ishape)],
                          [helper.make_tensor_value_info("y", it, oshape)],
                          initializer=[numpy_helper.from_array(np.asarray(a), n) for n, a in inits])
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", opset)])
    m.ir_version = 8
    return m


class Work:
    def __enter__(self):
        self.d = Path(tempfile.mkdtemp(prefix="demo-"))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def quiet(f, *a, **k):
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def read(p):
    def f(w):
        return float.fromhex(w) if "p" in w or "0x" in w else float(w)
    return [[f(w) for w in l.split()] for l in Path(p).read_text().splitlines() if l.strip()]


def cc(d, flags=()):
    srcs = sorted(str(p.name) for p in Path(d).glob("*.c"))
    subprocess.run(["gcc", "-O1", "-w", *flags, "-o", "exe", *srcs, "-lm"], cwd=d, check=True)


def run(m, data, channels=("c", "python"), flags=(), **kw):
    data = np.asarray(data, dtype=kw.pop("dtype", np.float32))
    out = {}
    with Work() as d:
        g = quiet(CodeGenerator, file=m, function_name="exe", nb_tests=len(data), test_dataset=data, **kw)
        if "python" in channels:
            quiet(g.compute_inference, str(d))
            out["python"] = read(d / "output_python.txt")
        if "c" in channels:
            quiet(g.generate_c_files, str(d / "c"))
            cc(d / "c", flags)
            subprocess.run(["./exe", "out.txt"], cwd=d / "c", check=True, capture_output=True, timeout=60)
            out["c"] = read(d / "c" / "out.txt")
    return out


def expect(got, want, tol=1e-3):
    want = np.asarray(want, dtype=float).reshape(len(want), -1)
    for ch, g in got.items():
        g = np.asarray(g, dtype=float)
        if g.shape != want.shape or not np.allclose(g, want, rtol=tol, atol=tol):
            print(f"{ch}: got {g.tolist()} want {want.tolist()}")
            sys.exit(1)
    print("ok")
