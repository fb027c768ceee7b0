"""C01: the generated C program computes what each operator of the model means."""
from acv_cases import op_case
from acv_core import Check, seed, tier
from acv_nets import OPS
from checks.net import run_cases


def make(arg):
    op, i, s = arg
    big = i < 0
    r = op_case(op, i, s, big=big)
    return None if r is None else (*r, f"{op}{i}" if big else f"{op}-{i}", {})


def plan(n: int) -> list:
    heavy = {"Gemm": 2, "Resize": 10, "MatMul": 2, "Conv": 8, "MaxPool": 2, "AveragePool": 2, "Pad": 4, "BatchNormalization": 2, "Clip": 2, "Gather": 4, "GatherElements": 3, "Softmax": 2}
    # negative: larger tensors
    return [(op, i, seed()) for op in OPS for i in range(-2 * (n // 20) - 1 if op in ("Conv", "Gemm", "MatMul") else -(n // 20), n * heavy.get(op, 1))]


def run(chk: Check) -> None:
    chk.rule = ("one operator with random attributes, operand kinds, ranks and constants (optionally activated), two "
                "random inputs; non-trivial: the observed outputs are not constant")
    run_cases(chk, plan(22 if tier() == "quick" else 120), make, channels=("c",))
