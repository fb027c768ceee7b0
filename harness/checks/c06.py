"""C06: the optimising rewrites keep the function computed by the network."""
import json
import random
from itertools import product

from acv_cases import graph_case, merge
from acv_core import Check, MachineryError, seed, tier, tlc_model
from acv_nets import OPS, Net, Reject, ints
from checks.net import run_cases

# what the rewrites look for, and what may stand in between
LETTERS = {"conv": ["Conv"], "norm": ["BatchNormalization"], "act": ["Relu", "LeakyRelu", "Clip", "Tanh", "Relu"], "sig": ["Sigmoid"],
           "silu": ["Silu"], "sum": ["Add", "Add", "Sub", "Mul"]}
WORDS = list(product(LETTERS, repeat=3))


def chain(i: int, s: int):
    """A chain of three layers, each word in turn, or of more; at times a tensor is read by another layer too."""
    rng = random.Random(f"chain-{i}-{s}")
    word = WORDS[i % len(WORDS)]
    if i >= len(WORDS) and rng.random() < 0.5:
        word = (*word, *(rng.choice(list(LETTERS)) for _ in range(rng.randint(1, 3))))
    forks = 0 if rng.random() < 0.5 else 0.35
    for _ in range(60):
        b = Net(rng, [1, rng.randint(1, 3), rng.randint(1, 4), rng.randint(2, 4)], rng.choice([256, 1024]), 2, -2, 2, opset=rng.choice([13, 17, 18]))
        try:
            x = 0
            for w in word:
                prev = x
                for _ in range(6):
                    keep = (len(b.init_protos), len(b.inits))
                    try:
                        x = OPS[rng.choice(LETTERS[w])](b, prev)
                        break
                    except Reject:
                        b.drop_last_init(*keep)
                else:
                    raise Reject("step")
                if rng.random() < forks:
                    OPS[rng.choice(["Relu", "Clip", "Add", "Conv"])](b, prev)
            loose = [v for v in range(len(b.name_of)) if not b.is_init[v] and b.uses[v] == 0]
            while len(loose) > 1:
                u, v = loose.pop(), loose.pop()
                loose.insert(0, merge(b, u, v))
            return b, loose[0]
        except Reject:
            continue
    return None


KINDS = {"Norm": ["BatchNormalization"], "Relu": ["Relu", "Relu", "LeakyRelu", "Clip", "Tanh"], "Sig": ["Sigmoid"]}


def drawn(i: int, s: int, spec: list):
    """A network of the specification, over tensors of one shape."""
    rng = random.Random(f"drawn-{i}-{s}")
    for _ in range(60):
        n = rng.randint(1, 3)
        b = Net(rng, [1, n, rng.randint(1, 3), rng.randint(2, 4)], rng.choice([256, 1024]), 2, -2, 2, opset=rng.choice([13, 17, 18]))
        ids = [0]
        try:
            for node in spec:
                x = [ids[o] for o in node["in"]]
                if node["k"] in ("Mul", "Add"):
                    ids.append(b.node(node["k"], x, {}, None, {}))
                elif node["k"] == "Conv":
                    k, p = rng.choice([(1, 0), (3, 1)])
                    w = b.init(ints(rng, [n, n, k, k], -1, 2, b.sc))
                    ins = [x[0], w] + ([b.init(ints(rng, [n], -2, 2, b.sc))] if rng.random() < 0.7 else [])
                    ids.append(b.node("Conv", ins, {"kernel_shape": [k, k], "strides": [1, 1], "pads": [p] * 4}, None,
                                      {"sh": 1, "sw": 1, "dh": 1, "dw": 1, "group": 1, "auto": "NOTSET", "pads": [p] * 4}))
                else:
                    ids.append(OPS[rng.choice(KINDS[node["k"]])](b, x[0]))
            return b, ids[-1]
        except Reject:
            continue
    return None


def networks(n: int):
    """The networks the rewrites are tempted by: all of three layers, and of those of four."""
    out = []
    for size in (3, 4):
        m = tlc_model("Fuse", f"FuseNets{size}.cfg")
        if not m["ok"]:
            raise MachineryError("Fuse does not hold\n" + m["out"][-1500:])
        lines = sorted({x for x in m["out"].splitlines() if x.startswith('"NET ')})
        if size == 4:
            lines = random.Random(f"nets-{seed()}").sample(lines, n)
        out += [json.loads(json.loads(x)[4:]) for x in lines]
    return out, m


def make(arg):
    i, s, kw = arg
    if isinstance(kw, list):
        r = drawn(i, s, kw)
        return None if r is None else (*r, f"net-{i}", {"optimization": True})
    if kw is None:
        r = chain(i, s)
        return None if r is None else (*r, f"chain-{i}", {"optimization": True})
    r = graph_case(i, s, tag="opt", smooth=True, **kw)
    return None if r is None else (*r, f"opt-{i}", {"optimization": True})


def run(chk: Check) -> None:
    chk.rule = ("random network generated with optimisation enabled, or every chain of three of the layers the rewrites look for (and longer ones), "
                "or the networks on which the specification of the rewrites finds one to try (every one of three layers, and of four), "
                "judged against the meaning of the model that was given; non-trivial: the observed outputs are not constant")
    quick = tier() == "quick"
    nets, m = networks(450 if quick else 6000)
    chk.add_states(m)
    if not quick:
        m = tlc_model("Fuse", "Fuse5.cfg")
        if not m["ok"]:
            raise MachineryError("Fuse does not hold\n" + m["out"][-1500:])
        chk.add_states(m)
    for guard in ("Single", "Linear", "Normed", "NormSingle", "Forget", "Other", "Activated"):
        if tlc_model("Fuse", f"Fuse{guard}.cfg")["ok"]:
            raise MachineryError(f"Fuse: the negative control {guard} passes")
    n = 800 if quick else 5000
    plan = [(i, seed(), {} if i % 3 else {"nmin": 6, "nmax": 12, "branch": 0.65}) for i in range(n)]
    plan += [(i, seed(), None) for i in range((2 if quick else 15) * len(WORDS))]
    plan += [(i, seed(), net) for i, net in enumerate(nets)]
    run_cases(chk, plan, make, channels=("c", "python"))
