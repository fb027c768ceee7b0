"""C10: the inference stays within its own memory and only reads values it computed."""
from __future__ import annotations

import random

from acv_cases import LAYOUT_INT, LAYOUT_RAT, any_case, any_options, graph_case
from acv_core import Check, MachineryError, pool_map, seed, tier
from acv_probe import call_histories
from checks.c07 import conv_variants
from checks.net import judge

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]


def one(i):
    rng = random.Random(f"mem-{i}-{seed()}")
    blocked = i % 6 == 5
    r = (graph_case(i, seed(), nmin=1, nmax=6, branch=0.3, tag="mem", menus={1: LAYOUT_INT, 256: LAYOUT_RAT}, size=7, block=True)
         if blocked else any_case(i, seed(), "mem"))
    if r is None:
        return None
    b, o = r
    case = b.case(f"mem-{i}", o)
    kw = any_options(rng, conv_variants())
    if blocked:
        kw["versions"] = {"Conv2D": "direct_block", "MaxPooling2D": "channels_last", "AveragePooling2D": "channels_last"}
        kw["gen_data_format"] = "channels_last"
    case["channels"] = call_histories(b.model(o), case, rng, calls=2, threads=1, extra=SAN, fills="nh", **kw)
    if blocked and any(c["status"] == "generate" for c in case["channels"]):
        return None  # refused: a matter of C08
    return case


def run(chk: Check) -> None:
    quick = tier() == "quick"
    chk.rule = ("random operators and networks with random implementations, compiled with address and bounds instrumentation, every "
                "buffer allocated to its exact size and contexts filled with NaN or huge values; non-trivial: outputs not constant")
    n = 450 if quick else 5000
    cases = []
    for a, (st, v) in zip(range(n), pool_map(one, list(range(n)), 120)):
        if st == "error":
            raise MachineryError(f"{a}: {v}")
        if st != "ok":
            chk.violation(f"mem-{a}: {st} {v}", {"case": a})
        elif v is not None:
            cases.append(v)
    judge(chk, cases)
